"""Equality obligations between value graphs of manifold operations.

An obligation is an equality of two terms over symbolic sizes, points and
vectors.  It is proved when the index-notation normal forms agree.  It is
reported violated only when the normal forms differ *and* the two value
graphs evaluate to different numbers at a witness; otherwise it stays
undetermined.
"""
import os

from . import tn
from .mterm import *
from .spaces import *
from .terms import Term, const, mk, sym, show
from .tn import TNError, ZERO, ONE
from .ttrans import TV, Blk, Bool, Dims

EPS = sym("eps")
DIMT = sym("dimension")
RTOL = 1e-6
FDTOL = 2e-4

OPS = (
    "inner_product", "norm", "dist", "projection", "to_tangent_space", "embedding",
    "euclidean_to_riemannian_gradient", "euclidean_to_riemannian_hessian", "exp",
    "retraction", "log", "random_point", "random_tangent_vector", "zero_vector",
    "transport", "pair_mean",
)


class Failed(Exception):
    pass


def nf(space, t):
    v = space.tr.tv(t)
    if isinstance(v, Blk):
        raise TNError("block value")
    if isinstance(v, Bool):
        v = space.tr.as01(v)
    if not isinstance(v, TV):
        raise TNError("not an array")
    if v.note:
        v = space.tr.forced(v)
    return v


def residual(space, l, r):
    """Normal form of l - r; None when the shapes differ."""
    a, b = nf(space, l), nf(space, r)
    if tuple(a.axes) != tuple(b.axes):
        return None
    return space.model.ctx.simp(tn.sub(a.p, b.p))


def prove(space, l, r, order=None):
    """True: equal; False: normal forms differ; None: not representable."""
    tn.reset_budget()
    try:
        if order is None:
            d = residual(space, l, r)
            if d is None:
                return False, "shapes differ: %s and %s" % (nf(space, l).axes, nf(space, r).axes)
            if space.model.ctx.iszero(d):
                return True, "normal forms agree"
            return False, "residual " + tn.show(d)[:300]
        a, b = nf(space, l), nf(space, r)
        if tuple(a.axes) != tuple(b.axes):
            return False, "shapes differ"
        ctx = space.model.ctx
        s = tn.series(a.p, tn.Fraction(order), ctx)
        if any(q < 0 and ctx.simp(v).t for q, v in s.items()):
            return False, "the expansion has a pole"
        d = ctx.simp(tn.sub(s.get(tn.Fraction(order), ZERO), b.p))
        if ctx.iszero(d):
            return True, "series coefficient %s agrees" % order
        return False, "residual " + tn.show(d)[:300]
    except TNError as e:
        return None, "not representable: %s" % e
    except RecursionError:
        return None, "too deep"
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        return None, "analysis failed: %r" % e


def witnesses(space, k=2):
    import numpy as np

    for i, sz in enumerate(space.sizes()):
        for seed in range(k):
            yield np.random.default_rng(1000 * i + seed), sz


def differ(space, l, r, order=None, bind=None):
    """True: the value graphs differ at a witness; False: agree at all; None."""
    import numpy as np

    from .tnum import Num, NumError, NumRaises

    worst = 0.0
    seen = 0

    for rng, sz in witnesses(space):
        env = space.numenv(rng, sz)
        seed = int(rng.integers(1 << 30))
        if bind:
            ev = Num(env, np.random.default_rng(seed))
            try:
                for t, q in bind.items():
                    env[t] = ev(q)
            except NumError as e:
                return None, str(e)

        def value(t, eps=None):
            e = dict(env)
            if eps is not None:
                e[EPS] = eps
            with np.errstate(all="ignore"):
                return np.asarray(Num(e, np.random.default_rng(seed))(t))

        side = 0
        try:
            if order is None:
                # one evaluator: both sides share the random draws
                ev = Num(env, np.random.default_rng(seed))
                with np.errstate(all="ignore"):
                    b = np.asarray(ev(r))
                    side = 1
                    a = np.asarray(ev(l))
                tol = RTOL
            elif order == 0:
                b = value(r)
                side = 1
                a = value(l, 0.0)
                tol = RTOL
            else:
                h = 1e-5
                side = 1
                a = (value(l, h) - value(l, -h)) / (2 * h)
                b = value(r)
                tol = FDTOL
        except NumRaises as e:
            if side == 0:
                return None, str(e)
            return True, "raises at a witness of %s: %s" % (sz, str(e)[:160])
        except NumError as e:
            return None, str(e)
        except Exception as e:
            return None, "evaluation: %s" % e
        seen += 1
        if a.dtype == object or b.dtype == object:
            return None, "not numeric"
        if a.dtype == bool or b.dtype == bool:
            a, b = a.astype(float), b.astype(float)
        if a.shape != b.shape:
            return True, "shape %s against %s" % (a.shape, b.shape)
        if not a.size:
            continue
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            if np.all(np.isfinite(b)):
                return True, "not finite at a witness"
            continue
        e = float(np.max(np.abs(a - b)) / (1 + np.max(np.abs(a)) + np.max(np.abs(b))))
        worst = max(worst, e)
        if e > tol:
            return True, "relative difference %.2g at a witness of shape %s" % (e, a.shape)
    if not seen:
        return None, "no witness"
    return False, "agree at %d witnesses" % seen


def decide(space, l, r, order=None, bind=None):
    v, why = prove(space, l, r, order)
    if v is True:
        return True, why
    d, how = differ(space, l, r, order, bind)
    if d is True and (v is False or how.startswith("raises")):
        return False, f"{how}; {why}"
    if v is False:
        return None, f"normal forms differ ({why[:160]}) but witness: {how}"
    if d is True and why.startswith("not representable"):
        # an operation outside the fragment of the normal form: the two value
        # graphs are compared at the witnesses only
        return False, f"{how}; {why}"
    return None, f"{why}; witness: {how}"


def manifest_positive(p, r, unit):
    """Every monomial is positive, or the expression is 1 - (product of draws from [0, 1))."""
    neg = [m for m, c in p.t.items() if c < 0]
    pos = [m for m, c in p.t.items() if c > 0]
    ok = lambda m: all(tn.is_pos_factor(tn._BYID[x], e, i) for x, i, e in m)
    if not p.t:
        return False
    if not neg:
        return all(ok(tuple(f for f in m if tn._BYID[f[0]].name != "flip")) for m in pos)
    if pos == [()] and p.t[()] == 1 and len(neg) == 1 and p.t[neg[0]] == -1:
        return bool(neg[0]) and all(e > 0 and below_one(tn._BYID[x], unit) for x, i, e in neg[0])
    return False


def below_one(a, unit):
    """A draw from [0, 1), or a positive power of one."""
    if a in unit:
        return True
    if a.kind != "fn" or a.name != "exp" or not a.args[0].t:
        return False
    for m, c in a.args[0].t.items():
        logs = [tn._BYID[x] for x, i, e in m if e == 1 and tn._BYID[x].kind == "fn" and tn._BYID[x].name == "log"]
        rest = [(x, i, e) for x, i, e in m if tn._BYID[x] not in logs]
        if c < 0 or len(logs) != 1 or not all(tn.is_pos_factor(tn._BYID[x], e, i) for x, i, e in rest):
            return False
        q = logs[0].args[0]
        if len(q.t) != 1 or list(q.t.values()) != [1] or not all(tn._BYID[x] in unit and e > 0 for x, i, e in next(iter(q.t))):
            return False
    return True


def manifest_pd(p, r, unit):
    """A sum of Hermitian squares F W F^H with positive weights W, one of them the identity
    (or an orthonormal square F with a positive diagonal)."""
    if not p.t:
        return False
    definite = False
    i, j = r - 2, r - 1
    for mono, c in p.t.items():
        if not c > 0:
            return False
        rest = []
        for x, idx, e in mono:
            a = tn._BYID[x]
            if i not in idx and j not in idx and tn.is_pos_factor(a, e, idx):
                continue
            rest.append((x, idx, e))
        if len(rest) == 1 and tn._BYID[rest[0][0]].kind == "delta":
            definite = True
            continue
        if len(rest) != 2:
            return False
        f = [q for q in rest if i in q[1]]
        g = [q for q in rest if j in q[1]]
        if len(f) != 1 or len(g) != 1:
            return False
        fa, fi, fe, sg = tn._conj_factor(tn._BYID[f[0][0]], f[0][1], f[0][2])
        if sg != 1 or f[0][2] != 1 or g[0][2] != 1:
            return False
        if fa is not tn._BYID[g[0][0]]:
            return False
        if tuple(j if q == i else q for q in fi) != tuple(g[0][1]):
            return False
        if tn._BYID[g[0][0]].name in ("cqrQ", "eighV", "svdU") and len(set(tn._BYID[g[0][0]].axes[-2:])) == 1:
            definite = True
    return definite


class Ob:
    """Obligations of one property on one manifold configuration."""

    def __init__(self, rep, space):
        self.rep, self.s = rep, space
        self.r = space.run()
        self.failed = None
        self.admitted = {}
        if self.r.ref is None:
            self.failed = "construction raises"
        space.tr.env[EPS] = TV((), tn.from_atom(tn.EPS))
        rep.count("manifold configurations")

    def key(self, rule, method):
        return f"{rule}@{self.s.label()}.{method}"

    def call(self, name, *args):
        """Result term of an operation; None when it raises on every path."""
        c = self.r.call(name, *args)
        self.rep.count("operations executed symbolically")
        if c.value is None:
            return None
        return c.terms()

    def get(self, rule, name, *args):
        """As call, but an operation that cannot return is reported."""
        c = self.r.call(name, *args)
        self.rep.count("operations executed symbolically")
        if c.value is None:
            kinds = c.raises
            if kinds == ["NotImplementedError"]:
                return None
            self.rep.add(self.key(rule, name), "violated" if kinds and "?" not in kinds else "undetermined", "raises %s on every path" % ", ".join(kinds), self.r.where(name))
            return None
        t = c.terms()
        if not isinstance(t, Term):
            self.rep.unk(self.key(rule, name), "result is not one array", self.r.where(name))
            return None
        why = self.rejected(t)
        if why:
            self.rep.bad(self.key(rule, name), why, self.r.where(name))
            return None
        return t

    def rejected(self, t):
        """Reason when neither the normal form nor any witness admits the term."""
        import numpy as np

        from .tnum import Num, NumError, NumRaises

        if t in self.admitted:
            return self.admitted[t]
        why = None
        tn.reset_budget()
        try:
            nf(self.s, t)
        except Exception as e:
            n = 0
            for rng, sz in witnesses(self.s, 1):
                env = self.s.numenv(rng, sz)
                env[EPS] = 1e-3
                try:
                    Num(env, rng)(t)
                    n = 0
                    break
                except NumRaises as x:
                    n += 1
                    last = f"raises at every witness: {str(x)[:160]}; {e}"
                except Exception:
                    n = 0
                    break
            if n:
                why = last
        self.admitted[t] = why
        return why

    def eq(self, rule, method, l, r, order=None):
        if l is None or r is None:
            return None
        v, why = decide(self.s, l, r, order)
        self.rep.verdict(self.key(rule, method), v, why, self.r.where(method))
        return v

    def same_array(self, rule, method, t, shape=None, dt=None):
        """Shape and number type of points and tangent vectors."""
        s = self.s
        try:
            v = nf(s, t)
        except Exception as e:
            self.rep.unk(self.key(rule, method), "not representable: %s" % e, self.r.where(method))
            return True
        want = s.axes() if shape is None else shape
        ok = len(v.axes) == len(want) and all(a == b for a, b in zip(v.axes, want))
        if not ok:
            self.rep.bad(self.key(rule, method), "shape %s, expected %s" % ([tn.show(x) for x in v.axes], [tn.show(x) for x in want]), self.r.where(method))
            return False
        dt = dt or s.dt
        if (v.dt == "c") != (dt == "c"):
            self.rep.bad(self.key(rule, method), "%s numbers expected" % ("complex" if dt == "c" else "real"), self.r.where(method))
            return True
        self.rep.ok(self.key(rule, method), "shape and number type", self.r.where(method))
        return True

    def sizes_differ(self, p):
        """A sizes-only expression is nonzero for some admissible sizes; None when it is not sizes-only."""
        from fractions import Fraction

        def ev(p, env):
            out = 0
            for mono, c in p.t.items():
                v = c
                for aid, idx, e in mono:
                    a = tn._BYID[aid]
                    if idx:
                        raise TNError("not a size")
                    if a.kind == "dim":
                        b = env.setdefault(a.name, Fraction(7 + 4 * len(env)))
                    elif a.kind == "prime":
                        b = float(a.name) if not isinstance(a.name, int) else a.name
                    elif a.kind == "pw":
                        b = ev(a.args[0], env)
                    else:
                        raise TNError("not a size")
                    if e != int(e):
                        b = float(b)
                    v = v * b ** (int(e) if e == int(e) else float(e))
                out = out + v
            return out

        try:
            return any(abs(float(ev(p, dict(e)))) > 1e-6 for e in ({}, {"n": 12, "k": 5}, {"k": 3, "n": 9, "_k": 2}))
        except (TNError, TypeError, ValueError, ArithmeticError):
            return None

    def sizes_refute(self, t, want):
        """Sizes at which a size expression differs from the polynomial it should equal."""
        import numpy as np

        from .tnum import Num, NumError

        base = dict(self.s.sizes()[0])
        for d in range(4):
            env = {a: b + (d if i % 2 else 2 * d - d // 2) for i, (a, b) in enumerate(base.items())}
            if "n" in base and "m" in base and base["m"] >= base["n"]:
                env["m"] = env["n"] + 2
            try:
                got = float(np.asarray(Num({sym(a): b for a, b in env.items()}, np.random.default_rng(0))(t)))
                exp = float(self.size_value(want, {a: b for a, b in env.items()}))
            except Exception:
                return None
            if abs(got - exp) > 1e-6:
                return "is %g at %s, expected %g" % (got, env, exp)
        return None

    def size_value(self, p, env):
        out = 0.0
        for mono, c in p.t.items():
            v = float(c)
            for aid, idx, e in mono:
                a = tn._BYID[aid]
                if idx or a.kind != "dim" or a.name not in env:
                    raise TNError("not a size")
                v *= float(env[a.name]) ** float(e)
            out += v
        return out

    def poly(self, rule, method, t, want):
        """Equality of a size expression with a polynomial in the sizes."""
        s = self.s
        try:
            a = nf(s, t)
            if a.r:
                raise TNError("not a scalar")
            d = s.model.ctx.simp(tn.sub(a.p, want))
            d = s.model.dsub(d) if s.model.dims_only(d) else d
        except TNError as e:
            w = self.sizes_refute(t, want)
            if w:
                self.rep.bad(self.key(rule, method) + "=" + show(t)[:80], "%s; not representable: %s" % (w, e), self.r.where(method))
            else:
                self.rep.unk(self.key(rule, method), "not representable: %s" % e, self.r.where(method))
            return
        if not d.t:
            self.rep.ok(self.key(rule, method), "equals " + tn.show(want), self.r.where(method))
        elif s.model.dims_only(d) or self.sizes_differ(d):
            self.rep.bad(self.key(rule, method) + "=" + tn.show(a.p), "%s, expected %s" % (tn.show(a.p), tn.show(want)), self.r.where(method))
        else:
            self.rep.unk(self.key(rule, method), "residual " + tn.show(d)[:200], self.r.where(method))

    def positive(self, rule, method, t, matrix=False):
        """A scalar (per slice) is positive, or a matrix positive definite.

        Proved when the normal form is manifestly positive; reported when it is not and
        the value graph is not positive at a witness.
        """
        import numpy as np

        from .tnum import Num, NumError

        s = self.s
        why = ""
        try:
            v = nf(s, t)
            if (manifest_pd if matrix else manifest_positive)(v.p, v.r, s.model.unitdraws):
                self.rep.ok(self.key(rule, method), "manifestly positive", self.r.where(method))
                return True
            why = "sign not evident: " + tn.show(v.p)[:160]
        except TNError as e:
            why = "not representable: %s" % e
        except Exception as e:
            why = repr(e)
        for rng, sz in witnesses(s, 3):
            try:
                with np.errstate(all="ignore"):
                    a = np.asarray(Num(s.numenv(rng, sz), rng)(t))
                q = np.linalg.eigvalsh(a) if matrix else np.real(a)
            except (NumError, np.linalg.LinAlgError) as e:
                break
            if not np.min(q) > 0:
                self.rep.bad(self.key(rule, method), "not positive (%.3g) at a witness; %s" % (np.min(q), why), self.r.where(method))
                return False
        self.rep.unk(self.key(rule, method), why, self.r.where(method))
        return None

    def pairs(self, rule, method, ps):
        for i, (l, r) in enumerate(ps):
            self.eq(rule if len(ps) == 1 else f"{rule}.{i}", method, l, r)


def all_spaces(rep, program, only=None):
    for S in SPACES:
        if only and not only(S):
            continue
        try:
            s = S(program)
            o = Ob(rep, s)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"configuration@{S.__name__}", "analysis failed: %r" % e)
            continue
        if o.failed:
            rep.unk(f"configuration@{s.label()}", o.failed)
            continue
        yield o


def each_space(rep, program, body, only=None):
    """Run ``body(ob)`` on every configuration; a failure of the analysis is undetermined."""
    for o in all_spaces(rep, program, only):
        try:
            body(o)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"analysis@{o.s.label()}", "analysis failed: %r" % e)


def load(root):
    from .program import Program

    P = Program(root)
    P.load_all()
    return P


def lin(a, b):
    return add(mul(ALPHA, a), mul(BETA, b))
