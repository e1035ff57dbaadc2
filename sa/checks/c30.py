"""C30: stacked manifolds act slice by slice."""
from ..manobl import *
from .. import opt_common as oc
from .. import slices
from ..values import Val
from ..interp import Dead
from ..opt import fresh_interp, entry_node

RULE = (
    "Every operation of every stacked manifold and of the single manifold is executed symbolically.  In the normal form "
    "of the stacked result every factor must carry the stacking axis at the stacking index of the result, nothing may "
    "sum over the copies or depend on their number, and the restriction to one slice (the axis dropped everywhere, also "
    "in the arguments of matrix functions) must be the normal form of the single manifold's result; inner products, "
    "squared norms and squared distances must be the sum of the single ones over the copies; random draws carry the "
    "stacking axis.  The same comparison holds the columns of Oblique against the sphere and the entries of "
    "ComplexCircle against one circle.  The batched functions of tools/multi.py must satisfy, for a stack and for one "
    "matrix, the equations that define them."
)
FLOOR = 300

ARGS = {
    "inner_product": (X, U, V), "norm": (X, U), "dist": (X, Y), "projection": (X, W), "to_tangent_space": (X, W),
    "embedding": (X, U), "euclidean_to_riemannian_gradient": (X, G), "euclidean_to_riemannian_hessian": (X, G, Hh, U),
    "exp": (X, U), "retraction": (X, U), "log": (X, Y), "random_point": (), "zero_vector": (X,), "transport": (X, Y, U),
    "weingarten": (X, U, V), "pair_mean": (X, Y), "random_tangent_vector": (X,),
}
MULTI = "pymanopt.tools.multi"


def run(rep, tier):
    program = load(oc.ROOT)
    for a, b, axis, dims in pairings():
        try:
            sa, sb = a(program), b(program)
            oa, ob = Ob(rep, sa), Ob(rep, sb)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk("configuration@%s" % a.__name__, "analysis failed: %r" % e)
            continue
        if oa.failed or ob.failed:
            rep.unk("configuration@%s" % sa.label(), oa.failed or ob.failed)
            continue
        for m, args in ARGS.items():
            try:
                Pair(rep, oa, ob, axis, dims).operation(m, args)
            except Exception as e:
                if os.environ.get("SA_DEBUG"):
                    raise
                rep.unk(oa.key("slices", m), "analysis failed: %r" % e)
    Multi(rep, program).run()


def pairings():
    """(stacked space, single space, stacking axis, renamed sizes)."""
    last = None
    for S in SPACES:
        if getattr(S, "K", None) == "k" and last is not None:
            yield S, last, 0, ()
        last = S
    yield ObliqueSpace, SphereSpace, 1, (("m", "n"),)
    yield ComplexCircleSpace, OneCircle, 0, ()


class OneCircle(ComplexCircleSpace):
    def slack(self):
        return {"n": ONE}

    def sizes(self):
        return [{"n": 1}]


class Pair:
    def __init__(self, rep, oa, ob, axis, dims):
        self.rep, self.oa, self.ob = rep, oa, ob
        self.a, self.b = oa.s, ob.s
        self.axis, self.dims = axis, dims
        self.K = self.a.axes()[axis]

    def operation(self, m, args):
        rep, oa, ob = self.rep, self.oa, self.ob
        rule, where = oa.key("slices", m), oa.r.where(m)
        if m == "random_tangent_vector" and self.a.dimension() is not None and not self.a.dimension().t:
            # no tangent vector of unit norm
            return
        ca, cb = oa.r.call(m, *args), ob.r.call(m, *args)
        rep.count("operations executed symbolically", 2)
        if ca.value is None or cb.value is None:
            if ca.value is None and cb.value is None:
                return
            odd = ca if ca.value is None else cb
            kinds = odd.raises
            if kinds == ["NotImplementedError"] and self.a.cls != self.b.cls:
                return
            rep.add(rule, "violated" if kinds and "?" not in kinds else "undetermined", "raises %s on every path for %s, returns for %s" % (", ".join(kinds), *(("the stack", "one copy") if odd is ca else ("one copy", "the stack"))), where)
            return
        ta, tb = ca.terms(), cb.terms()
        if not (isinstance(ta, Term) and isinstance(tb, Term)):
            rep.unk(rule, "result is not one array", where)
            return
        if m == "pair_mean":
            if all(self.halfway(o, t) for o, t in ((oa, ta), (ob, tb))):
                rep.ok(rule, "the exponential of half the logarithm, which are compared themselves", where)
                return
        why = None
        try:
            tn.reset_budget()
            va, vb = nf(self.a, ta), nf(self.b, tb)
            pa, pb = self.a.model.ctx.simp(va.p), self.b.model.ctx.simp(vb.p)
            if m.startswith("random_"):
                why = self.draws(m, va, vb, pa, pb)
            else:
                why = self.compare(m, va, vb, pa, pb, {})
        except slices.Couples as e:
            why = "the copies are coupled: %s" % e
        except (TNError, RecursionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError) as e:
            why = "not representable: %s" % e
        if why is None:
            rep.ok(rule, "the restriction to a slice is the single result", where)
            return
        if why == "":
            return
        if m.startswith("random_"):
            rep.unk(rule, why, where)
            return
        d, how = self.differ(m, ta, tb)
        rep.verdict(rule, False if d else None, "%s; witness: %s" % (why[:200], how), where)

    def halfway(self, o, t):
        l = o.call("log", X, Y)
        half = const(Fraction(1, 2))
        return isinstance(l, Term) and any(o.call("exp", X, h) is t for h in (mul(half, l), div(l, 2)))

    def compare(self, m, va, vb, pa, pb, rename):
        """None when the restriction agrees, otherwise the reason."""
        ca, cb = self.a.model.ctx, self.b.model.ctx
        (mono, _), = self.K.t.items()
        sl = slices.Slice(self.K, tn._BYID[mono[0][0]].name, self.dims, rename)
        if va.r == 0:
            if vb.r:
                return "a scalar for the stack, an array for one copy"
            if m in ("norm", "dist"):
                pa, pb = ca.simp(tn.power(pa, 2)), cb.simp(tn.power(pb, 2))
            q = sl.scalar(pa)
        else:
            if not va.axes[self.axis] == self.K:
                return "the result has no axis for the copies"
            q = sl.poly(pa, self.axis)
        d = cb.simp(tn.sub(cb.simp(q), pb))
        if d.t:
            return "the restriction differs by " + tn.show(d)
        return None

    def draws(self, m, va, vb, pa, pb):
        rep, oa = self.rep, self.oa
        rep_key, where = oa.key("independent", m), oa.r.where(m)
        f = lambda p: sorted({x.name for x in tn.atoms_of(p) if x.kind == "sym" and isinstance(x.name, str) and x.name.startswith("rnd")}, key=lambda q: int(q[3:]))
        ds = [x for x in tn.atoms_of(pa) if x.kind == "sym" and isinstance(x.name, str) and x.name.startswith("rnd")]
        ln = [x for x in ds if not any(d == self.K for d in x.axes)]
        if not ds and f(pb):
            rep.bad(rep_key, "nothing is drawn for a stack", where)
        elif ln:
            rep.bad(rep_key, "the draw of shape (%s) is shared by all copies" % ", ".join(tn.show(d) for d in ln[0].axes), where)
        else:
            rep.ok(rep_key, "%d draws, each with one entry per copy" % len(ds), where)
        if m == "random_tangent_vector":
            # scaled to unit norm as a whole
            return ""
        na, nb = f(pa), f(pb)
        if len(na) != len(nb):
            return "%d draws for the stack, %d for one copy" % (len(na), len(nb))
        return self.compare(m, va, vb, pa, pb, dict(zip(na, nb)))

    def differ(self, m, ta, tb):
        """(differ at a witness, how)."""
        import numpy as np

        from .. import tnum

        n = 0
        for rng, sz in witnesses(self.a):
            env = self.a.numenv(rng, sz)
            (mono, _), = self.K.t.items()
            K = sz[tn._BYID[mono[0][0]].name]
            seed = int(rng.integers(1 << 30))
            full = tuple(env[X].shape)
            try:
                with np.errstate(all="ignore"):
                    A = np.asarray(tnum.Num(env, np.random.default_rng(seed))(ta))
                    B = []
                    for i in range(K):
                        e = {}
                        for t, v in env.items():
                            if isinstance(v, np.ndarray) and v.shape == full:
                                e[t] = np.take(v, i, self.axis).reshape(self.single(sz))
                            else:
                                e[t] = v
                        for s_, v in self.sizes(sz).items():
                            e[sym(s_)] = v
                        B.append(np.asarray(tnum.Num(e, np.random.default_rng(seed))(tb)))
                if A.ndim == 0 and m in ("norm", "dist"):
                    B = np.sqrt(sum(abs(q) ** 2 for q in B))
                elif A.ndim == 0:
                    B = sum(B)
                else:
                    sh = list(A.shape)
                    if len(sh) <= self.axis or sh[self.axis] != K:
                        return True, "shape %s for %d copies" % (A.shape, K)
                    B = np.stack([q.reshape(sh[: self.axis] + sh[self.axis + 1:]) for q in B], self.axis)
            except tnum.NumRaises as e:
                return None, str(e)
            except tnum.NumError as e:
                return None, str(e)
            except Exception as e:
                return None, "evaluation: %s" % e
            if not (np.all(np.isfinite(A)) and np.all(np.isfinite(B))):
                if np.all(np.isfinite(B)):
                    return True, "not finite for the stack"
                continue
            n += 1
            err = float(np.max(np.abs(A - B), initial=0.0) / (1 + np.max(np.abs(A), initial=0.0) + np.max(np.abs(B), initial=0.0)))
            if err > RTOL:
                return True, "relative difference %.2g to the single results" % err
        return (False, "agree at %d witnesses" % n) if n else (None, "no witness")

    def sizes(self, sz):
        out = dict(self.b.sizes()[0])
        for a in out:
            if a in sz:
                out[a] = sz[a]
        for a, b in self.dims:
            out[b] = sz[a]
        if "k" in out:
            out["k"] = 1
        if isinstance(self.b, OneCircle):
            out["n"] = 1
        return out

    def single(self, sz):
        import numpy as np

        from .. import tnum

        ev = tnum.Num({sym(a): v for a, v in self.sizes(sz).items()}, np.random.default_rng(0))
        return tuple(int(ev(w(x))) for x in self.b.shape())


# ----------------------------------------------------------------- multi.py


class Generic(Stacked):
    """Arrays of (one or k) m x n matrices, or of n x n ones; no manifold."""

    cls = "multi"
    square = True
    herm = False
    pd = False

    def __init__(self, program):
        self.program = program
        self.model = Model(self.slack())
        self.model.pd = self.pd
        self.tr = self.model.trans
        self.tr.env[X] = self.point_value("X")
        self.tr.env[EPS] = TV((), tn.from_atom(tn.EPS))
        self.tr.env[W] = symv("W", tuple(self.tr.dimof(w(x)) for x in self.st(n, n)), self.dt)

    def slack(self):
        return self.slackk({"n": sl(2, "n"), "m": tn.add(sl(2, "n"), tn.dim("_m"))})

    def shape(self):
        return self.st(n, n) if self.square else self.st(m, n)

    def sizes(self):
        return self.szk([{"n": 3, "m": 4}])

    def point_value(self, name):
        if not self.herm:
            return symv(name, self.axes(), self.dt, ())
        return symv(name, self.axes(), self.dt, ("symm",) if self.dt == "f" else ("herm",))

    def numenv(self, rng, sizes):
        import numpy as np

        env = {sym(a): b for a, b in sizes.items()}
        from ..tnum import Num

        shp = tuple(int(Num(env, rng)(w(x))) for x in self.shape())
        a = rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if self.dt == "c" else 0)
        if self.herm:
            a = a @ a.conj().swapaxes(-1, -2) + 0.3 * np.eye(shp[-1]) if self.pd else a + a.conj().swapaxes(-1, -2)
        elif self.square:
            # the principal logarithm is defined
            a = a @ a.conj().swapaxes(-1, -2) + 0.1 * a
        env[X] = a
        env[W] = rng.standard_normal(shp[:-2] + (shp[-1],) * 2)
        return env


class Multi:
    def __init__(self, rep, program):
        self.rep, self.program = rep, program

    def run(self):
        for K in "1k":
            for dt in "fc":
                self.square(K, dt)
                self.rectangular(K, dt)

    def space(self, K, dt, **kw):
        return type("Generic", (Generic,), dict(kw, K=K, dt=dt))(self.program)

    def call(self, s, name, args, kw=()):
        from ..man import ManHooks, flatten_value

        it, st = fresh_interp(self.program, ManHooks(self.program, s.model))
        it.sinks.append([])
        self.rep.count("batched functions executed symbolically")
        try:
            f = self.program.get(MULTI, name)
            v = it.call(f, [Val(a, frozenset(["arg%d" % i])) for i, a in enumerate(args)], {k: Val(q) for k, q in kw}, st, entry_node(name))
        except Dead:
            return None, sorted({q[0] for q in it.sinks[-1]})
        return flatten_value(it, v, st), ()

    def obl(self, s, name, rule, args, want, kw=()):
        """want: callable on the result terms giving pairs of equal terms."""
        key = "%s@%s(%s,%s%s)" % (rule, name, "stack" if s.K == "k" else "one", "complex" if s.dt == "c" else "real", "".join(",%s" % k for k, q in kw if q.args[0] is True))
        loc = "src/pymanopt/tools/multi.py:%s" % getattr(getattr(self.program.get(MULTI, name), "node", None), "lineno", "?")
        t, kinds = self.call(s, name, args, kw)
        if t is None:
            self.rep.add(key, "violated" if kinds and "?" not in kinds else "undetermined", "raises %s on every path" % ", ".join(kinds), loc)
            return
        try:
            ps = want(t)
            if isinstance(ps, str):
                self.rep.add(key, *ps.split(":", 1), loc)
                return
        except Exception as e:
            self.rep.unk(key, "result: %r" % e, loc)
            return
        for i, (l, r) in enumerate(ps):
            try:
                ok, why = decide(s, l, r)
            except Exception as e:
                ok, why = None, "analysis failed: %r" % e
            self.rep.verdict(key if len(ps) == 1 else "%s.%d" % (key, i), ok, why, loc)

    def square(self, K, dt):
        half = const(Fraction(1, 2))
        g = self.space(K, dt)
        c = dt == "c"
        self.obl(g, "multisym", "each-matrix", [X], lambda t: [(t, mul(half, add(X, T(X))))])
        self.obl(g, "multiherm", "each-matrix", [X], lambda t: [(t, mul(half, add(X, H(X))))])
        self.obl(g, "multiskew", "each-matrix", [X], lambda t: [(t, mul(half, sub(X, T(X))))])
        self.obl(g, "multiskewh", "each-matrix", [X], lambda t: [(t, mul(half, sub(X, H(X))))])
        self.obl(g, "multiexpm", "each-matrix", [X], lambda t: [(t, ext("scipy.linalg.expm", X))])
        self.obl(g, "multilogm", "each-matrix", [X], lambda t: [(t, ext("scipy.linalg.logm", X))])
        h = self.space(K, dt, herm=True)
        self.obl(h, "multiexpm", "each-matrix", [X], lambda t: [(t, ext("scipy.linalg.expm", X))], (("symmetric", const(True)),))
        p = self.space(K, dt, herm=True, pd=True)
        self.obl(p, "multilogm", "each-matrix", [X], lambda t: [(t, ext("scipy.linalg.logm", X))], (("positive_definite", const(True)),))
        if not c and K == "k":
            self.obl(g, "multieye", "each-matrix", [k, n], lambda t: [(mm(t, X), X), (mm(X, t), X)])

    def rectangular(self, K, dt):
        g = self.space(K, dt, square=False)
        self.obl(g, "multitransp", "each-matrix", [X], lambda t: [(t, T(X))])
        self.obl(g, "multihconj", "each-matrix", [X], lambda t: [(t, H(X))])
        self.obl(g, "multiqr", "product", [X], lambda t: [(mm(t[0], t[1]), X)])
        self.obl(g, "multiqr", "orthonormal", [X], lambda t: [(mm(mm(H(t[0]), t[0]), W), W)])
        self.obl(g, "multiqr", "triangular-positive-diagonal", [X], lambda t: self.upper(g, t[1]))

    def upper(self, s, t):
        """"status:detail" of: t is the triangular factor with positive diagonal."""
        import numpy as np

        from ..tnum import Num

        why = "not representable"
        try:
            v = nf(s, t)
            p = s.model.ctx.simp(v.p)
            R = tn.atom("mat", "cqrR", (s.tr.env[X].p,), v.axes, ("c",) if s.dt == "c" else ())
            if p == tn.from_atom(R):
                return "proved:the triangular factor with positive diagonal"
            why = "is " + tn.show(p)[:120]
        except TNError as e:
            why = str(e)
        for rng, sz in witnesses(s):
            r = np.asarray(Num(s.numenv(rng, sz), rng)(t))
            d = np.diagonal(r, axis1=-2, axis2=-1)
            if np.max(abs(np.tril(r, -1))) > 1e-9 or np.max(abs(np.imag(d))) > 1e-9 or np.min(np.real(d)) <= 0:
                return "violated:not upper triangular with positive diagonal at a witness; " + why
        return "undetermined:%s; upper triangular with positive diagonal at the witnesses" % why
