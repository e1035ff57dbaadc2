"""Manifold configurations: symbolic sizes, points, tangent vectors, metrics.

Every specification is a term, so that it can be brought to normal form like
the value graphs of the code.
"""
from fractions import Fraction

from . import tn
from .mterm import *
from .terms import Term, const, mk, sym, is_num
from .tn import ONE, ZERO, Poly, TNError, F1
from .ttrans import TV, Blk, Bool, Trans, symv, is1, perm, tmul, tadd, tconst, tmm
from .man import ManRun

n, m, p, k = sym("n"), sym("m"), sym("p"), sym("k")
X, Y, Z, U, V, W, W2, G, Hh = (sym(s) for s in ("X", "Y", "Z", "U", "V", "W", "W2", "G", "H"))
U0, V0, C0 = sym("U0"), sym("V0"), sym("C0")
S1, S2 = sym("S1"), sym("S2")
ALPHA, BETA = sym("alpha"), sym("beta")
A0 = sym("A")


def polar(A, axes, fl):
    """Unitary polar factor in a canonical orientation."""
    nb = len(axes) - 2
    b = {q: q for q in range(nb)}
    tr = lambda p: tn.relabel(p, {**b, nb: nb + 1, nb + 1: nb})
    if len(A.t) == 1 and axes[-1] == axes[-2] and tr(tn.conj(A)) == A:
        (mono, c), = A.t.items()
        if c == 1 and len(mono) in (1, 2) and all(tn._BYID[f[0]].kind == "sym" for f in mono):
            # F^H F with F of full column rank
            if len(mono) == 2 and mono[0][2] == mono[1][2] == 1:
                (a1, i1, _), (a2, i2, _) = mono
                same = {a1} == {a2} or tn._conj_factor(tn._BYID[a1], i1, 1)[0].aid == a2
                if same and i1[-1] != i2[-1] and i1[:-1] == i2[:-1] and i1[-2] < 0:
                    return tn.from_atom(tn.delta(axes[-1]), (nb, nb + 1))
    C = tn.conj(A)
    best = min(((q.key, n_) for n_, q in enumerate((A, tr(A), C, tr(C)))))[1]
    q = (A, tr(A), C, tr(C))[best]
    ax = axes if best in (0, 2) else axes[:-2] + (axes[-1], axes[-2])
    r = tn.from_atom(tn.atom("mat", "polar", (q,), ax, fl))
    if best in (2, 3):
        r = tn.conj(r)
    return r if best in (0, 2) else tr(r)


class MatCtx(tn.Ctx):
    """Facts about matrix factors."""

    def __init__(self):
        super().__init__()
        self.bases = []

    def matrules(self, a):
        nb = len(a.axes) - 2
        name = a.name
        cj = lambda at: tn._BYID[next(iter(tn.conj(tn.from_atom(at)).t))[0][0]] if "c" in at.flags else at
        b = tuple(range(nb))
        P = nb
        dl = lambda d: tn.from_atom(tn.delta(d), (P, P + 1))
        R = tn.Rule
        if "conj" in a.flags:
            if name in ("cqrR", "chol"):
                pl = tn.atom("mat", name, a.args, a.axes, a.flags ^ {"conj"})
                yield R([(a, b + (P, P), 1)], tn.from_atom(pl, b + (P, P)), "real diagonal")
            base = tn.atom("mat", name, a.args, a.axes, a.flags ^ {"conj"})
            for r in self.matrules(base):
                lhs = []
                for f in r.lhs:
                    q = tn._conj_factor(*f)
                    if q[3] != 1:
                        break
                    lhs.append(q[:3])
                else:
                    yield R(lhs, tn.conj(r.rhs), r.name)
            return
        c = cj(a)
        if name in ("cqrQ", "svdU", "polar", "swapP", "swapN"):
            yield R([(a, b + (-1, P + 1), 1), (c, b + (-1, P), 1)], dl(a.axes[-1]), "orthonormal columns")
            if a.axes[-1] == a.axes[-2]:
                yield R([(a, b + (P, -1), 1), (c, b + (P + 1, -1), 1)], dl(a.axes[-1]), "orthonormal rows")
        if name in ("svdVh", "eighV"):
            yield R([(a, b + (P, -1), 1), (c, b + (P + 1, -1), 1)], dl(a.axes[-2]), "orthonormal rows")
            if a.axes[-1] == a.axes[-2]:
                yield R([(a, b + (-1, P + 1), 1), (c, b + (-1, P), 1)], dl(a.axes[-1]), "orthonormal columns")
        A = a.args[0]
        fl = ("c",) if "c" in a.flags else ()
        if name == "svdU":
            for x in self.bases:
                # X^H A = 0 gives X^H U = 0 (nonzero singular values)
                xp = tn.from_atom(x)
                lb = ["b%d" % q for q in range(nb)]
                if len(x.axes) == nb + 2 and x.axes[-2] == a.axes[-2]:
                    z = self.simp(tn.einsum([(tn.conj(xp), lb + ["i", "p"]), (a.args[0], lb + ["i", "q"])], lb + ["p", "q"]))
                    if not z.t:
                        cx = tn.conj(xp)
                        cx = tn._BYID[next(iter(cx.t))[0][0]]
                        yield R([(a, b + (-1, P + 1), 1), (cx, b + (-1, P), 1)], ZERO, "orthogonal to the point")
            s = a.axes[-1]
            fd = tn.free_dims(A)
            Ah = tn.relabel(tn.conj(A), {**{q: q for q in range(nb)}, nb: nb + 1, nb + 1: nb})
            S = tn.atom("mat", "svdS", (min(A, Ah, key=lambda x: x.key),), a.axes[:nb] + (s,), ("pos",))
            Vh = tn.atom("mat", "svdVh", (A,), a.axes[:nb] + (s, fd[nb + 1]), fl)
            yield R([(a, b + (P, -1), 1), (S, b + (-1,), 1), (Vh, b + (-1, P + 1), 1)], tn.relabel(A, {**{q: q for q in b}, nb: P, nb + 1: P + 1}), "svd")
            pol = polar(A, a.axes[:nb] + (a.axes[-2], fd[nb + 1]), fl)
            yield R([(a, b + (P, -1), 1), (Vh, b + (-1, P + 1), 1)], pol, "polar factor")
        if name == "cqrQ":
            s = a.axes[-1]
            Rr = tn.atom("mat", "cqrR", (A,), a.axes[:nb] + (s, s), fl)
            yield R([(a, b + (P, -1), 1), (Rr, b + (-1, P + 1), 1)], A, "qr")
        if name == "polar" and len(A.t) == 1:
            # polar(A) A^H and polar(A)^H A are Hermitian
            (mono, cf), = A.t.items()
            (cm, cc), = tn.conj(A).t.items()
            lab = {q: q for q in b}
            left = tn.atom("mat", "polabsL", (A,), a.axes[:nb] + (a.axes[-2],) * 2, fl + ("herm",))
            right = tn.atom("mat", "polabsR", (A,), a.axes[:nb] + (a.axes[-1],) * 2, fl + ("herm",))
            yield R([(a, b + (P, -1), 1)] + tn._rename_rule(cm, {**lab, nb: P + 1, nb + 1: -1}), tn.scale_by(tn.from_atom(left, b + (P, P + 1)), cc), "polar factor")
            yield R([(c, b + (-1, P), 1)] + tn._rename_rule(mono, {**lab, nb: -1, nb + 1: P + 1}), tn.scale_by(tn.from_atom(right, b + (P, P + 1)), cf), "polar factor")
        if name == "chol":
            yield R([(a, b + (P, -1), 1), (c, b + (P + 1, -1), 1)], A, "cholesky")
            # A^-1 L = L^-H
            d = a.axes[-1]
            iA = tn.mat_unary("inv", (A,), a.axes, fl)
            iL = tn.mat_unary("inv", (tn.from_atom(a),), a.axes, fl)
            if len(iA.t) == 1:
                (mi, ci), = iA.t.items()
                if len(mi) == 1 and ci == 1:
                    at, ii = tn._BYID[mi[0][0]], mi[0][1]
                    re1 = lambda u, v: tuple({nb: u, nb + 1: v}.get(q, q) for q in ii)
                    yield R([(at, re1(P, -1), 1), (a, b + (-1, P + 1), 1)], tn.relabel(tn.conj(iL), {**{q: q for q in b}, nb: P + 1, nb + 1: P}), "cholesky inverse")
                    yield R([(at, re1(-1, P + 1), 1), (c, b + (-1, P), 1)], iL, "cholesky inverse")
        if name == "logm":
            yield from self.spectral(a, b, A)
        if name == "eighV":
            wv = tn.atom("mat", "eighW", (A,), a.axes[:nb] + (a.axes[-1],), ("real",))
            wp = tn.from_atom(wv)
            yield R([(a, b + (P, -1), 1), (wv, b + (-1,), 1), (c, b + (P + 1, -1), 1)], A, "eigen decomposition")
            for f, g in (("log", "logm"), ("exp", "expm")):
                fa = tn.fn(f, wp)
                (mono, _), = fa.t.items()
                at = tn._BYID[mono[0][0]]
                idx = mono[0][1]
                idx = tuple(-1 if i == nb else i for i in idx)
                rhs = tn.mat_unary(g, (A,), a.axes, fl)
                yield R([(a, b + (P, -1), 1), (at, idx, 1), (c, b + (P + 1, -1), 1)], rhs, "matrix function")
        if name == "lyap":
            pass

    def spectral(self, a, b, A):
        """Squared logarithms of the eigenvalues of P^-1 Q are those of Q^-1 P."""
        nb = len(b)
        if len(A.t) != 1:
            return
        (mono, cf), = A.t.items()
        if len(mono) != 3 or cf != 1:
            return
        Ls, rest = [], []
        for aid, idx, e in mono:
            at = tn._BYID[aid]
            if at.kind == "mat" and at.name == "inv" and len(at.args[0].t) == 1 and e in (1, 2):
                (m2, c2), = at.args[0].t.items()
                if len(m2) == 1 and c2 == 1 and tn._BYID[m2[0][0]].name == "chol":
                    Ls.append(tn._BYID[m2[0][0]])
                    continue
            rest.append((at, idx, e))
        if len(Ls) != 2 or len(rest) != 1 or rest[0][2] != 1:
            return
        L = Ls[0] if "conj" not in Ls[0].flags else Ls[1]
        Q = tn.from_atom(rest[0][0])
        fl = ("c",) if "c" in a.flags or "c" in rest[0][0].flags else ()
        iL = tn.mat_unary("inv", (tn.from_atom(L),), L.axes, fl)
        lb = ["b%d" % q for q in range(nb)]
        if len(rest[0][0].axes) != nb + 2 or len(L.axes) != nb + 2:
            return
        for Qo in ((Q,) if rest[0][0].symm else (Q, tn.transpose_last(Q, nb + 2))):
            want = tn.einsum([(iL, lb + ["i", "k"]), (Qo, lb + ["k", "l"]), (tn.conj(iL), lb + ["j", "l"])], lb + ["i", "j"])
            if want == A:
                break
        else:
            return
        pair = tuple(sorted((L.args[0], Qo), key=lambda x: x.key))
        s = tn.from_atom(tn.atom("mat", "logspec", pair, a.axes[:nb], ("pos", "real")), b)
        yield tn.Rule([(a, b + (-1, -2), 1), (a, b + (-2, -1), 1)], s, "spectrum")
        yield tn.Rule([(a, b + (-1, -2), 2)], s, "spectrum") if a.symm else tn.Rule([(a, b + (-1, -2), 1), (a, b + (-2, -1), 1)], s, "spectrum")

    def _dynamic(self, a):
        yield from super()._dynamic(a)
        if a.kind == "mat" and a.name == "inv" and len(a.args[0].t) == 1:
            (mono, c), = a.args[0].t.items()
            if len(mono) == 1 and tn._BYID[mono[0][0]].name == "chol" and c == 1:
                L = tn._BYID[mono[0][0]]
                idx = mono[0][1]
                nb = len(a.axes) - 2
                b = tuple(range(nb))
                A = L.args[0]
                if len(A.t) == 1 and "conj" not in L.flags:
                    (am, ac), = A.t.items()
                    if len(am) == 1 and ac == 1:
                        X = tn._BYID[am[0][0]]
                        xi = am[0][1]
                        # inv(L) A = L^H, in the orientation the inverse atom is stored
                        cL = tn.conj(tn.from_atom(L))
                        P = nb
                        if idx == b + (nb, nb + 1):
                            ii = b + (P, -1)
                        else:
                            ii = b + (-1, P)
                        ren = {nb: -1, nb + 1: P + 1}
                        yield tn.Rule([(a, ii, 1), (X, tuple(ren.get(q, q) for q in xi), 1)], tn.relabel(cL, {**{q: q for q in b}, nb: P + 1, nb + 1: P}), "cholesky inverse")


class Model:
    """Answers of the interpreter's questions about shapes and sizes."""

    def __init__(self, slack):
        self.slack = slack  # dim name -> Poly in slack dims
        self.ctx = MatCtx()
        self.trans = Trans(self)
        self.pd = False
        self.units = {}
        self.unitdraws = set()  # draws from [0, 1)

    # sizes

    def compare_dims(self, a, b):
        d = self.dsub(tn.sub(a, b))
        if not d.t:
            return 0
        if all(c > 0 for c in d.t.values()):
            return 1
        if all(c < 0 for c in d.t.values()):
            return -1
        return None

    def sign_range(self, d):
        """(lower sign, upper sign) information for a size polynomial over slack >= 0 where constants matter."""
        d = self.dsub(d)
        c0 = d.t.get((), 0)
        rest = [c for m_, c in d.t.items() if m_ != ()]
        if not rest:
            return (c0 > 0) - (c0 < 0), True
        if all(c > 0 for c in rest) and c0 > 0:
            return 1, True
        if all(c < 0 for c in rest) and c0 < 0:
            return -1, True
        if all(c > 0 for c in rest) and c0 == 0:
            return 1, False  # >= 0
        if all(c < 0 for c in rest) and c0 == 0:
            return -1, False
        return None, False

    def dsub(self, poly):
        mp = {}
        for nme, q in self.slack.items():
            mp[tn.atom("dim", nme, (), (), ("pos",))] = q
        out = ZERO
        for mono, c in poly.t.items():
            acc = tn.scale_by(ONE, c)
            for aid, idx, e in mono:
                a = tn._BYID[aid]
                acc = tn.mul(acc, tn.power(mp.get(a, tn.from_atom(a, idx)), e))
            out = tn.add(out, acc)
        return out

    def symbol(self, t):
        nme = t.args[0]
        if nme in self.slack:
            q = self.slack[nme]
            if q.const() is not None:
                return TV((), q)
            return TV((), tn.dim(nme))
        return None

    def dims_only(self, poly):
        return all(tn._BYID[a].kind in ("dim", "prime") for mo in poly.t for a, i, e in mo)

    def decide(self, t):
        if t.op in ("lt", "le", "eq"):
            try:
                a, b = self.trans.tv(t.args[0]), self.trans.tv(t.args[1])
            except (TNError, RecursionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError):
                return None
            if not (isinstance(a, TV) and isinstance(b, TV) and a.r == 0 and b.r == 0):
                return None
            if not (self.dims_only(a.p) and self.dims_only(b.p)):
                return None
            s, strict = self.sign_range(tn.sub(b.p, a.p))
            if s is None:
                return None
            if t.op == "lt":
                if strict:
                    return s > 0
                return False if s < 0 else None
            if t.op == "le":
                if strict:
                    return s >= 0
                return True if s > 0 else None
            if t.op == "eq":
                if strict:
                    return s == 0
                return None
        if t.op == "truthy":
            x = t.args[0]
            if x.op == "npcall" and x.args[0] in ("iscomplexobj", "isrealobj"):
                try:
                    c = self.trans.arr(x.args[1][0]).dt == "c"
                except TNError:
                    return None
                return c if x.args[0] == "iscomplexobj" else not c
        return None

    def kind(self, t):
        if t in self.trans.env:
            v = self.trans.env[t]
            return "array" if v.r else "scalar"
        if t.op == "sym" and t.args[0] in self.slack:
            return "scalar"
        return None

    def isinstance_(self, t, cname):
        if t in self.trans.env or t.op == "sym":
            if t.op == "sym" and t.args[0] in self.slack:
                return cname == "int"
            if cname in ("list", "tuple", "Sequence", "dict", "str", "int", "float"):
                return False
        if t.op in ("matmul", "npcall", "add", "mul", "neg", "div", "pow") and cname in ("list", "tuple", "Sequence", "dict", "str"):
            try:
                if self.trans.arr(t).r:
                    return False
            except Exception:
                pass
        return None

    def attr(self, t, name):
        if name not in ("ndim", "shape", "size", "dtype"):
            return None
        try:
            v = self.trans.arr(t)
        except (TNError, RecursionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError):
            return None
        if name == "ndim":
            return const(v.r)
        if name == "shape":
            out = []
            for d in v.axes:
                x = self.dimterm(d)
                if x is None:
                    return None
                out.append(x)
            return tuple(out)
        return None

    def dimterm(self, d):
        c = d.const()
        if c is not None:
            return const(int(c))
        if len(d.t) == 1:
            (mo, c), = d.t.items()
            if c == 1 and len(mo) == 1 and mo[0][2] == 1 and tn._BYID[mo[0][0]].kind == "dim":
                return sym(tn._BYID[mo[0][0]].name)
        return None

    def unit(self, i, d):
        """Unit vector selecting entry i of an axis of length d."""
        return tn.from_atom(tn.atom("sym", ("unit", i), (), (d,), ()))

    def posdet(self, v):
        return self.pd


def D(name):
    return tn.dim(name)


def sl(lo, *names):
    r = tn.num(lo)
    for x in names:
        r = tn.add(r, tn.dim("_" + x))
    return r


class Space:
    """One configuration of one manifold."""

    cls = None
    dt = "f"
    quotient = False
    second_order = False  # the retraction is documented as second-order
    parallel = False  # the transport is documented as parallel transport
    stacked = False
    lie = False
    tags = ()
    ref_exp = ref_log = ref_dist = ref_retraction = mean = None

    def __init__(self, program):
        self.program = program
        self.model = Model(self.slack())
        self.tr = self.model.trans
        self.setup()
        self.runs = {}

    # to be provided: slack(), args(), kwargs(), shape(), nums()
    def kwargs(self):
        return {}

    def ineq(self, x):
        """(term, is-matrix) pairs that are positive on the manifold."""
        return []

    def label(self):
        return f"{self.cls}{self.suffix()}"

    def suffix(self):
        return ""

    # derived

    def axes(self):
        return tuple(self.tr.dimof(w(x)) for x in self.shape())

    def run(self, opaque=None):
        r = self.runs.get(None)
        if r is None:
            r = self.runs[None] = ManRun(self.program, self.cls, self.args(), self.kwargs(), self.model, opaque)
        return r

    def setup(self):
        env = self.tr.env
        for t in (X, Y, Z):
            env[t] = self.point_value(t.args[0])
        for t in (W, W2, U0, V0):
            env[t] = symv(t.args[0], self.axes(), self.dt)
        env[G] = symv("G", self.axes(), self.dt)
        env[Hh] = symv("H", self.axes(), self.dt)
        env[ALPHA] = symv("alpha", (), "f")
        env[BETA] = symv("beta", (), "f")
        self.rules()
        env[U] = self.tr.tv(self.tparam(X, U0))
        env[V] = self.tr.tv(self.tparam(X, V0))
        if self.quotient:
            self.quotient_setup()

    def rules(self):
        pass

    def point_value(self, name):
        return symv(name, self.axes(), self.dt)

    def tparam(self, x, a):
        return a

    def pt(self, x):
        """Pairs that must be equal for a point."""
        return []

    def tang(self, x, v):
        return []

    def emb(self, x, v):
        return v

    def ip(self, x, a, b):
        return eip(a, b)

    def reip(self, x, a, b):
        """Inner product in which the projection is orthogonal (ambient arguments)."""
        return eip(a, b)

    def covd(self, x, u, d, g, o):
        """Covariant derivative along u from the plain derivative d of the gradient g."""
        return o.call("projection", x, d)

    # numeric witnesses

    def numenv(self, rng, sizes):
        import numpy as np

        env = {}
        for a, b in sizes.items():
            env[sym(a)] = b
        from .tnum import Num

        ev = Num(env, rng)
        shp = tuple(int(ev(w(x))) for x in self.shape())
        rnd = lambda s=None: rng.standard_normal(s or shp) + (1j * rng.standard_normal(s or shp) if self.dt == "c" else 0)
        for t in (X, Y, Z):
            env[t] = self.sample(rng, shp)
        for t in (W, W2, U0, V0, G, Hh):
            env[t] = rnd()
        env[ALPHA], env[BETA] = float(rng.standard_normal()), float(rng.standard_normal())
        self.numextra(env, rng, shp)
        ev = Num(env, rng)
        for t, q in ((U, U0), (V, V0)):
            env[t] = ev(self.tparam(X, q))
        return env

    def numextra(self, env, rng, shp):
        pass

    # extreme arguments
    split = None  # axis along which the manifold is a product of factors
    antipodal = False  # -x is a point, and has a distance

    def positive_quantities(self):
        """Normal forms that are positive at every point."""
        if not hasattr(self, "_posq"):
            self._posq = []
            for x in (X, Y):
                for t, matrix in self.ineq(x):
                    if not matrix:
                        try:
                            self._posq.append(self.model.ctx.simp(self.tr.tv(t).p))
                        except tn.TNError:
                            pass
        return self._posq

    def dimension(self):
        raise NotImplementedError


def nqr(A):
    import numpy as np

    q, r = np.linalg.qr(A)
    return q


# ------------------------------------------------------------------ Euclidean


class EuclideanSpace(Space):
    cls = "Euclidean"
    rank = 1

    def slack(self):
        return {"n": sl(2, "n"), "m": sl(2, "m"), "p": sl(2, "p")}

    def suffix(self):
        return "(%s)" % ",".join(str(x) for x in self.args())

    def args(self):
        return [n, m, p][: self.rank]

    def shape(self):
        return self.args()

    def sizes(self):
        return [{"n": 3, "m": 4, "p": 2}]

    def sample(self, rng, shp):
        return rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if self.dt == "c" else 0)

    def dimension(self):
        r = ONE
        for a in self.axes():
            r = tn.mul(r, a)
        return tn.scale_by(r, 2 if self.dt == "c" else 1)

    def typical(self):
        return ("sqrtdim",)


class Euclidean2(EuclideanSpace):
    rank = 2


class Euclidean3(EuclideanSpace):
    rank = 3


class ComplexEuclideanSpace(EuclideanSpace):
    cls = "ComplexEuclidean"
    dt = "c"


class ComplexEuclidean2(ComplexEuclideanSpace):
    rank = 2


class Stacked(Space):
    """Common base of k-fold manifolds; K is '1' or 'k'."""

    split = 0

    K = "1"

    def slackk(self, d):
        if self.K == "k":
            d["k"] = sl(2, "k")
        else:
            d["k"] = ONE
        return d

    @property
    def stacked(self):
        return self.K == "k"

    def st(self, *core):
        return ((k,) if self.K == "k" else ()) + core

    def kk(self):
        return k if self.K == "k" else const(1)

    def suffix(self):
        return "(k=%s)" % self.K

    def szk(self, l):
        return [dict(x, k=(next(q for q in (3, 2, 4, 5) if q not in x.values()) if self.K == "k" else 1)) for x in l]

    def bl(self):
        return (0,) if self.K == "k" else ()


class SymmetricSpace(Stacked):
    cls = "Symmetric"
    sgn = 1

    def slack(self):
        return self.slackk({"n": sl(2, "n")})

    def args(self):
        return [n]

    def kwargs(self):
        return {"k": self.kk()}

    def shape(self):
        return self.st(n, n)

    def sizes(self):
        return self.szk([{"n": 3}, {"n": 2}])

    def S(self, x):
        return add(x, T(x)) if self.sgn > 0 else sub(x, T(x))

    def sample(self, rng, shp):
        a = rng.standard_normal(shp)
        return a + self.sgn * a.swapaxes(-1, -2)

    def point_value(self, name):
        a = symv(name, self.axes(), "f")
        b = perm(a, list(range(a.r - 2)) + [a.r - 1, a.r - 2])
        return TV(a.axes, tn.add(a.p, tn.scale_by(b.p, self.sgn)))

    def tparam(self, x, a):
        return self.S(a)

    def pt(self, x):
        return [(x, T(x) if self.sgn > 0 else neg(T(x)))]

    def tang(self, x, v):
        return self.pt(v)

    def dimension(self):
        q = tn.mul(D("n"), tn.add(D("n"), tn.num(self.sgn)))
        return tn.scale_by(tn.mul(self.kd(), q), Fraction(1, 2))

    def kd(self):
        return D("k") if self.K == "k" else ONE

    def typical(self):
        return ("sqrtdim",)


Stacked.kd = SymmetricSpace.kd


class SkewSpace(SymmetricSpace):
    cls = "SkewSymmetric"
    sgn = -1


# --------------------------------------------------------------------- sphere


class SphereSpace(Space):
    antipodal = True
    cls = "Sphere"
    rank = 1

    def slack(self):
        return {"n": sl(2, "n"), "m": sl(2, "m"), "p": sl(2, "p")}

    def suffix(self):
        return "(%s)" % ",".join(str(x) for x in self.args())

    def args(self):
        return [n, m, p][: self.rank]

    def shape(self):
        return self.args()

    def sizes(self):
        return [{"n": 4, "m": 3, "p": 2}]

    def sample(self, rng, shp):
        import numpy as np

        a = rng.standard_normal(shp)
        return a / np.linalg.norm(a)

    def rules(self):
        for t in (X, Y, Z):
            self.unit_rule(self.tr.env[t])

    def unit_rule(self, v):
        (mono, c), = v.p.t.items()
        a = tn._BYID[mono[0][0]]
        lab = tuple(-1 - i for i in range(len(a.axes)))
        self.model.ctx.add([(a, lab, 2)], ONE, "unit norm")

    def tparam(self, x, a):
        return sub(a, mul(tsum(mul(x, a)), x))

    def pt(self, x):
        return [(tsum(mul(x, x)), const(1))]

    def tang(self, x, v):
        return [(tsum(mul(x, v)), const(0))]

    def ref_exp(self, x, u):
        q = norm(u)
        return add(mul(np_("cos", q), x), mul(div(np_("sin", q), q), u))

    def ref_log(self, x, y):
        c = tsum(mul(x, y))
        v = sub(y, mul(c, x))
        return mul(div(np_("arccos", c), norm(v)), v)

    def ref_dist(self, x, y):
        return np_("arccos", tsum(mul(x, y)))

    def ref_retraction(self, x, u):
        s = add(x, u)
        return div(s, norm(s))

    def dimension(self):
        r = ONE
        for a in self.axes():
            r = tn.mul(r, a)
        return tn.sub(r, ONE)

    def typical(self):
        return ("pi",)

    def mean(self, x, y):
        s = add(x, y)
        return div(s, norm(s))


class Sphere2(SphereSpace):
    rank = 2


class Sphere3(SphereSpace):
    rank = 3


class SubspaceSphere(SphereSpace):
    """Points X = Q c with Q an orthonormal basis; the projector is Q Q^T."""

    cls = "SphereSubspaceIntersection"

    def dimension(self):
        return tn.sub(D("p"), ONE)

    def slack(self):
        return {"n": sl(3, "n", "p"), "p": sl(2, "p"), "rank": sl(2, "p")}

    def suffix(self):
        return ""

    def args(self):
        return [A0]

    def shape(self):
        return [n]

    def sizes(self):
        return [{"n": 5, "p": 3}]

    def setup(self):
        env = self.tr.env
        env[A0] = symv("A", (D("n"), D("p")), "f")
        q = self.tr.fact("qr", env[A0])[0]
        # orthonormal basis up to column signs: the projector does not see them
        self.Q = tn.atom("mat", "cqrQ", (env[A0].p,), (D("n"), D("p")), ())
        env[sym("Qb")] = TV((D("n"), D("p")), tn.from_atom(self.Q))
        super().setup()

    def point_value(self, name):
        return symv(name, self.axes(), "f")

    def rules(self):
        super().rules()
        for t in (X, Y, Z):
            (mono, c), = self.tr.env[t].p.t.items()
            a = tn._BYID[mono[0][0]]
            self.model.ctx.add([(self.Q, (0, -1), 1), (self.Q, (-2, -1), 1), (a, (-2,), 1)], tn.from_atom(a, (0,)), "in the subspace")

    def proj(self, x):
        q = sym("Qb")
        return mm(q, mm(T(q), x))

    def tparam(self, x, a):
        return super().tparam(x, self.proj(a))

    def pt(self, x):
        return super().pt(x) + [(self.proj(x), x)]

    def tang(self, x, v):
        return super().tang(x, v) + [(self.proj(v), v)]

    def sample(self, rng, shp):
        import numpy as np

        if not hasattr(self, "_Q") or self._Q.shape[0] != shp[0]:
            self._A = rng.standard_normal((shp[0], 3))
            self._Q = nqr(self._A)
        c = self.comp(self._Q, rng.standard_normal(shp[0]))
        return c / np.linalg.norm(c)

    def comp(self, Q, z):
        return Q @ (Q.T @ z)

    def numextra(self, env, rng, shp):
        env[A0] = self._A
        env[sym("Qb")] = self._Q


class ComplementSphere(SubspaceSphere):
    cls = "SphereSubspaceComplementIntersection"

    def dimension(self):
        return tn.sub(tn.sub(D("n"), D("p")), ONE)

    def rules(self):
        SphereSpace.rules(self)
        for t in (X, Y, Z):
            (mono, c), = self.tr.env[t].p.t.items()
            a = tn._BYID[mono[0][0]]
            self.model.ctx.add([(self.Q, (-1, 0), 1), (a, (-1,), 1)], ZERO, "orthogonal to the subspace")

    def proj(self, x):
        q = sym("Qb")
        return sub(x, mm(q, mm(T(q), x)))

    def comp(self, Q, z):
        return z - Q @ (Q.T @ z)


# -------------------------------------------------------- Stiefel, Grassmann


class StiefelSpace(Stacked):
    cls = "Stiefel"
    retr = "qr"
    square = False

    @property
    def second_order(self):
        return self.retr == "polar"

    def slack(self):
        if self.square:
            return self.slackk({"n": sl(2, "p"), "p": sl(2, "p")})
        return self.slackk({"n": sl(3, "n", "p"), "p": sl(2, "p")})

    def suffix(self):
        return "(k=%s%s%s)" % (self.K, "" if self.retr == "qr" else ",retraction=" + self.retr, ",n=p" if self.square else "")

    def args(self):
        return [n, n if self.square else p]

    def kwargs(self):
        r = {"k": self.kk()}
        if self.retr != "qr":
            r["retraction"] = self.retr
        return r

    def shape(self):
        return self.st(n, n if self.square else p)

    def sizes(self):
        if self.square:
            return self.szk([{"n": 3, "p": 3}])
        return self.szk([{"n": 5, "p": 2}, {"n": 4, "p": 3}])

    def sample(self, rng, shp):
        a = rng.standard_normal(shp)
        if self.dt == "c":
            a = a + 1j * rng.standard_normal(shp)
        return nqr(a)

    def rules(self):
        b = self.bl()
        nb = len(b)
        for t in (X, Y, Z):
            (mono, c), = self.tr.env[t].p.t.items()
            a = tn._BYID[mono[0][0]]
            ca = tn._BYID[next(iter(tn.conj(tn.from_atom(a)).t))[0][0]]
            self.model.ctx.bases.append(a)
            self.model.ctx.add([(ca, b + (-1, nb), 1), (a, b + (-1, nb + 1), 1)], tn.from_atom(tn.delta(a.axes[-1]), (nb, nb + 1)), "orthonormal columns")
            if a.axes[-1] == a.axes[-2]:
                self.model.ctx.add([(a, b + (nb, -1), 1), (ca, b + (nb + 1, -1), 1)], tn.from_atom(tn.delta(a.axes[-1]), (nb, nb + 1)), "orthonormal rows")

    def pdim(self):
        return n if self.square else p

    def pt(self, x):
        return [(mm(H(x), x), np_("broadcast_to", eye(self.pdim()), tup(*self.st(self.pdim(), self.pdim()))))]

    def tang(self, x, v):
        return [(mm(H(x), v), neg(H(mm(H(x), v))))]

    def tparam(self, x, a):
        xa = mm(H(x), a)
        return sub(a, mm(x, herm(xa)))

    def ref_exp(self, x, u):
        a = mm(H(x), u)
        s = mm(H(u), u)
        i = np_("broadcast_to", eye(self.pdim()), tup(*self.st(self.pdim(), self.pdim())))
        blk = np_("block", mk("list", mk("list", a, neg(s)), mk("list", i, a)))
        e = ext("scipy.linalg.expm", blk)
        e = mk("getitem", e, tup(const(Ellipsis), mk("slice_obj", const(None), self.pdim(), const(None))))
        left = np_("block", mk("list", mk("list", x, u)))
        return mm(mm(left, e), ext("scipy.linalg.expm", neg(a)))

    def polar(self, y):
        f = np_("linalg.svd", y, full_matrices=False)
        return mm(mk("select", f, const(0)), mk("select", f, const(2)))

    def dimension(self):
        nd = D("n")
        pd = D("n") if self.square else D("p")
        q = tn.sub(tn.mul(nd, pd), tn.scale_by(tn.mul(pd, tn.add(pd, ONE)), Fraction(1, 2)))
        return tn.mul(self.kd(), q)

    def typical(self):
        return ("sqrt", mul(self.pdim(), self.kk()))


class GrassmannSpace(StiefelSpace):
    cls = "Grassmann"

    def kwargs(self):
        return {"k": self.kk()}

    def tang(self, x, v):
        return [(mm(H(x), v), mul(0, mm(H(x), v)))]

    def tparam(self, x, a):
        return sub(a, mm(x, mm(H(x), a)))

    def ref_exp(self, x, u):
        f = np_("linalg.svd", u, full_matrices=False)
        uu, s, vh = (mk("select", f, const(i)) for i in range(3))
        c = np_("expand_dims", np_("cos", s), -2)
        sn = np_("expand_dims", np_("sin", s), -2)
        return add(mm(mul(mm(x, H(vh)), c), vh), mm(mul(uu, sn), vh))

    def ref_log(self, x, y):
        # arctan of the singular values of (Y - X X^H Y)(X^H Y)^{-1}
        xy = mm(H(x), y)
        b = sub(mm(y, np_("linalg.inv", xy)), x)
        f = np_("linalg.svd", b, full_matrices=False)
        uu, s, vh = (mk("select", f, const(i)) for i in range(3))
        return mm(mul(uu, np_("expand_dims", np_("arctan", s), -2)), vh)

    def ref_dist(self, x, y):
        s = np_("linalg.svd", mm(H(x), y), compute_uv=False)
        return norm(np_("arccos", np_("clip", s, 0, 1)))

    def dimension(self):
        nd, pd = D("n"), D("n") if self.square else D("p")
        q = tn.sub(tn.mul(nd, pd), tn.mul(pd, pd))
        return tn.scale_by(tn.mul(self.kd(), q), 2 if self.dt == "c" else 1)


class ComplexGrassmannSpace(GrassmannSpace):
    cls = "ComplexGrassmann"
    dt = "c"


# --------------------------------------------------------------------- groups


class GroupSpace(StiefelSpace):
    cls = "SpecialOrthogonalGroup"
    square = True
    lie = True

    def ineq(self, x):
        return [] if self.dt == "c" else [(np_("linalg.det", x), False)]

    def args(self):
        return [n]

    def suffix(self):
        return "(k=%s%s)" % (self.K, "" if self.retr == "qr" else ",retraction=" + self.retr)

    def slack(self):
        return self.slackk({"n": sl(2, "n")})

    def sizes(self):
        return self.szk([{"n": 3}, {"n": 2}])

    def sample(self, rng, shp):
        import numpy as np

        a = StiefelSpace.sample(self, rng, shp)
        if self.dt != "c":
            d = np.linalg.det(a)
            a = np.array(a)
            a[..., 0] = a[..., 0] * np.sign(d)[..., None]
        return a

    def tang(self, x, v):
        return [(v, neg(H(v)))]

    def tparam(self, x, a):
        return skew(a)

    def emb(self, x, v):
        return mm(x, v)

    def covd(self, x, u, d, g, o):
        return skew(add(mm(u, g), d))

    def ref_exp(self, x, u):
        return mm(x, ext("scipy.linalg.expm", u))

    def dimension(self):
        nd = D("n")
        if self.dt == "c":
            return tn.mul(self.kd(), tn.mul(nd, nd))
        return tn.scale_by(tn.mul(self.kd(), tn.mul(nd, tn.sub(nd, ONE))), Fraction(1, 2))

    def typical(self):
        return ("pisqrt", mul(n, self.kk()))


class UnitarySpace(GroupSpace):
    cls = "UnitaryGroup"
    dt = "c"


class OneGroup:
    """Groups of 1 x 1 matrices (their constructors and draws treat this size apart)."""

    tags = ("degenerate",)

    def pdim(self):
        return const(1)

    def point_value(self, name):
        return symv(name, self.axes(), self.dt, ("unit",))

    def rules(self):
        pass

    def args(self):
        return [const(1)]

    def shape(self):
        return self.st(const(1), const(1))

    def slack(self):
        return self.slackk({})

    def sizes(self):
        return self.szk([{}])

    def suffix(self):
        return "(n=1,k=%s)" % self.K

    def typical(self):
        return ("pisqrt", self.kk())

    def dimension(self):
        return self.kd() if self.dt == "c" else ZERO


class U1Space(OneGroup, UnitarySpace):
    pass


class SO1Space(OneGroup, GroupSpace):
    pass


# ---------------------------------------------------------- positive definite


class SPDSpace(Stacked):
    cls = "SymmetricPositiveDefinite"
    second_order = True
    special = False

    def ineq(self, x):
        return [(x, True)]

    def slack(self):
        return self.slackk({"n": sl(2, "n")})

    def setup(self):
        self.model.pd = True
        super().setup()

    def args(self):
        return [n]

    def kwargs(self):
        return {"k": self.kk()}

    def shape(self):
        return self.st(n, n)

    def sizes(self):
        return self.szk([{"n": 3}, {"n": 2}])

    def point_value(self, name):
        return symv(name, self.axes(), self.dt, ("symm",) if self.dt == "f" else ("herm",))

    def sample(self, rng, shp):
        import numpy as np

        a = rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if self.dt == "c" else 0)
        r = a @ a.conj().swapaxes(-1, -2) + np.eye(shp[-1])
        if self.special:
            r = r / (np.linalg.det(r).real ** (1 / shp[-1]))[..., None, None]
        return r

    def pt(self, x):
        return [(x, H(x))]

    def tang(self, x, v):
        return [(v, H(v))]

    def tparam(self, x, a):
        return add(a, H(a))

    def ip(self, x, a, b):
        return real(tsum(trace(mm(solve(x, a), solve(x, b)))))

    def covd(self, x, u, d, g, o):
        a = mm(u, solve(x, g))
        return sub(d, mul(0.5, add(a, H(a))))

    def reip(self, x, a, b):
        return self.ip(x, a, b)

    def ref_exp(self, x, u):
        return mm(x, ext("scipy.linalg.expm", solve(x, u)))

    def ref_retraction(self, x, u):
        return add(x, u, mul(0.5, mm(u, solve(x, u))))

    def ref_dist(self, x, y):
        c = np_("linalg.cholesky", x)
        ci = np_("linalg.inv", c)
        f = np_("linalg.eigh", mm(ci, y, H(ci)))
        wv, v = mk("select", f, const(0)), mk("select", f, const(1))
        return norm(mm(v, mul(col(np_("log", wv)), H(v))))

    def ref_log(self, x, y):
        c = np_("linalg.cholesky", x)
        ci = np_("linalg.inv", c)
        f = np_("linalg.eigh", mm(ci, y, H(ci)))
        wv, v = mk("select", f, const(0)), mk("select", f, const(1))
        return mm(c, mm(v, mul(col(np_("log", wv)), H(v))), H(c))

    def dimension(self):
        nd = D("n")
        if self.dt == "c":
            q = tn.mul(nd, nd)
            if self.special:
                q = tn.sub(q, ONE)
            return tn.mul(self.kd(), q)
        return tn.scale_by(tn.mul(self.kd(), tn.mul(nd, tn.add(nd, ONE))), Fraction(1, 2))

    def typical(self):
        return ("sqrtdim",)


class HPDSpace(SPDSpace):
    cls = "HermitianPositiveDefinite"
    dt = "c"


class SHPDSpace(HPDSpace):
    cls = "SpecialHermitianPositiveDefinite"
    special = True

    def rules(self):
        for t in (X, Y, Z):
            v = self.tr.env[t]
            d = self.tr.det(v)
            (mono, c), = d.p.t.items()
            a = tn._BYID[mono[0][0]]
            self.model.ctx.add([(a, tuple(range(len(a.axes))), 1)], ONE, "unit determinant")

    def pt(self, x):
        return super().pt(x) + [(np_("linalg.det", x), np_("ones", tup(*self.st())))]

    def tang(self, x, v):
        return super().tang(x, v) + [(trace(solve(x, v)), np_("zeros", tup(*self.st())))]

    def tparam(self, x, a):
        h = add(a, H(a))
        t = trace(solve(x, h))
        t = np_("expand_dims", np_("expand_dims", t, -1), -1)
        return sub(h, mul(div(t, n), x))

    def ref_retraction(self, x, u):
        return None


# ------------------------------------------------------------------------ psd


class PSDSpace(Space):
    cls = "PSDFixedRank"
    quotient = True

    def slack(self):
        return {"n": sl(3, "n", "k"), "k": sl(2, "k")}

    def args(self):
        return [n, k]

    def shape(self):
        return (n, k)

    def sizes(self):
        return [{"n": 5, "k": 2}, {"n": 4, "k": 3}]

    def sample(self, rng, shp):
        return rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if self.dt == "c" else 0)

    def tang(self, x, v):
        return [(mm(H(x), v), mm(H(v), x))]

    def tparam(self, x, a):
        # horizontal: X B + Z with B = (X^H X) S hermitian-compatible
        xx = mm(H(x), x)
        q = mm(x, solve(xx, mm(H(x), a)))  # component in the range of X
        s = mm(H(x), a)
        return add(sub(a, q), mm(x, solve(xx, add(s, H(s)))))

    def quotient_setup(self):
        env = self.tr.env
        nd = D("n")
        env[S1] = symv("S1", (nd, nd), self.dt)
        env[S2] = symv("S2", (nd, nd), self.dt)
        env[G] = self.tr.tv(self.gparam(X, S1))
        env[Hh] = self.tr.tv(add(self.gparam(X, S2), mm(self.sy(S1), U)))

    def sy(self, s):
        return add(s, H(s))

    def gparam(self, x, s):
        return mm(self.sy(s), x)

    def numextra(self, env, rng, shp):
        nn = shp[0]
        for t in (S1, S2):
            env[t] = rng.standard_normal((nn, nn)) + (1j * rng.standard_normal((nn, nn)) if self.dt == "c" else 0)

    def numenv(self, rng, sizes):
        from .tnum import Num

        env = super().numenv(rng, sizes)
        ev = Num(env, rng)
        env[G] = ev(self.gparam(X, S1))
        ev = Num(env, rng)
        env[Hh] = ev(add(self.gparam(X, S2), mm(self.sy(S1), U)))
        return env

    def ref_exp(self, x, u):
        return add(x, u)

    def ref_log(self, x, y):
        f = np_("linalg.svd", mm(H(y), x))
        return sub(mm(y, mk("select", f, const(0)), mk("select", f, const(2))), x)

    def dimension(self):
        nd, kd = D("n"), D("k")
        return tn.sub(tn.mul(nd, kd), tn.scale_by(tn.mul(kd, tn.sub(kd, ONE)), Fraction(1, 2)))

    def typical(self):
        return ("term", add(10, k))


class PSDComplexSpace(PSDSpace):
    cls = "PSDFixedRankComplex"
    dt = "c"

    def dimension(self):
        nd, kd = D("n"), D("k")
        return tn.sub(tn.scale_by(tn.mul(nd, kd), 2), tn.mul(kd, kd))


class ElliptopeSpace(PSDSpace):
    split = 0
    cls = "Elliptope"

    def rules(self):
        for t in (X, Y, Z):
            (mono, c), = self.tr.env[t].p.t.items()
            a = tn._BYID[mono[0][0]]
            self.model.ctx.add([(a, (0, -1), 2)], ONE, "unit rows")

    def sample(self, rng, shp):
        import numpy as np

        a = rng.standard_normal(shp)
        return a / np.linalg.norm(a, axis=1, keepdims=True)

    def pt(self, x):
        return [(np_("sum", mul(x, x), axis=1), np_("ones", n))]

    def tang(self, x, v):
        return super().tang(x, v) + [(np_("sum", mul(x, v), axis=1), np_("zeros", n))]

    def rowproj(self, x, a):
        return sub(a, mul(x, keepsum(mul(x, a), 1)))

    def tparam(self, x, a):
        # S x row-projected with S symmetric is horizontal; general element via the Lyapunov correction
        e = self.rowproj(x, a)
        s = sub(mm(T(x), e), mm(T(e), x))
        om = ext("scipy.linalg.solve_continuous_lyapunov", mm(T(x), x), s)
        return sub(e, mm(x, mul(0.5, sub(om, T(om)))))

    ref_exp = None
    ref_log = None

    def ref_retraction(self, x, u):
        y = add(x, u)
        return div(y, sqrt(keepsum(mul(y, y), 1)))

    def dimension(self):
        nd, kd = D("n"), D("k")
        return tn.sub(tn.mul(nd, tn.sub(kd, ONE)), tn.scale_by(tn.mul(kd, tn.sub(kd, ONE)), Fraction(1, 2)))

    def typical(self):
        return ("term", mul(10, k))


# ------------------------------------------------------------- simple vectors


class ComplexCircleSpace(Space):
    split = 0
    antipodal = True
    cls = "ComplexCircle"
    dt = "c"

    def slack(self):
        return {"n": sl(2, "n")}

    def args(self):
        return [n]

    def shape(self):
        return (n,)

    def sizes(self):
        return [{"n": 4}]

    def point_value(self, name):
        return symv(name, self.axes(), "c", ("unit",))

    def sample(self, rng, shp):
        import numpy as np

        return np.exp(1j * rng.uniform(0, 6.28, shp))

    def pt(self, x):
        return [(mul(conj(x), x), np_("ones", n))]

    def tang(self, x, v):
        return [(real(mul(conj(x), v)), np_("zeros", n))]

    def tparam(self, x, a):
        return sub(a, mul(real(mul(conj(x), a)), x))

    def ref_exp(self, x, u):
        q = np_("abs", u)
        return add(mul(np_("cos", q), x), mul(div(np_("sin", q), q), u))

    def ref_log(self, x, y):
        v = sub(y, mul(real(mul(conj(x), y)), x))
        return mul(div(np_("arccos", real(mul(conj(x), y))), np_("abs", v)), v)

    def ref_dist(self, x, y):
        return norm(np_("arccos", real(mul(conj(x), y))))

    def ref_retraction(self, x, u):
        return div(add(x, u), np_("abs", add(x, u)))

    def dimension(self):
        return D("n")

    def typical(self):
        return ("pisqrt", n)

    def mean(self, x, y):
        return div(add(x, y), np_("abs", add(x, y)))


class PositiveSpace(Stacked):
    cls = "Positive"
    second_order = True
    par = False

    @property
    def parallel(self):
        return self.par

    def ineq(self, x):
        return [(x, False)]

    def slack(self):
        return self.slackk({"n": sl(2, "n"), "m": sl(2, "m")})

    def suffix(self):
        return "(k=%s%s)" % (self.K, ",parallel" if self.par else "")

    def args(self):
        return [m, n]

    def kwargs(self):
        r = {"k": self.kk()}
        if self.par:
            r["use_parallel_transport"] = const(True)
        return r

    def shape(self):
        return self.st(m, n)

    def sizes(self):
        return self.szk([{"n": 3, "m": 2}])

    def point_value(self, name):
        return symv(name, self.axes(), "f", ("pos",))

    def sample(self, rng, shp):
        import numpy as np

        return np.exp(rng.standard_normal(shp))

    def ip(self, x, a, b):
        return tsum(div(mul(a, b), mul(x, x)))

    def covd(self, x, u, d, g, o):
        return sub(d, div(mul(u, g), x))

    def ref_exp(self, x, u):
        return mul(x, np_("exp", div(u, x)))

    def ref_log(self, x, y):
        return mul(x, sub(np_("log", y), np_("log", x)))

    def ref_dist(self, x, y):
        return norm(sub(np_("log", y), np_("log", x)))

    def ref_retraction(self, x, u):
        return add(x, u, div(mul(u, u), mul(2, x)))

    def dimension(self):
        return tn.mul(self.kd(), tn.mul(D("m"), D("n")))

    def typical(self):
        return ("sqrtdim",)


class PoincareSpace(Stacked):
    cls = "PoincareBall"

    def ineq(self, x):
        return [(sub(1, np_("sum", mul(x, x), axis=-1)), False)]

    def slack(self):
        return self.slackk({"n": sl(2, "n")})

    def args(self):
        return [n]

    def kwargs(self):
        return {"k": self.kk()}

    def shape(self):
        return self.st(n)

    def sizes(self):
        return self.szk([{"n": 3}])

    def sample(self, rng, shp):
        import numpy as np

        a = rng.standard_normal(shp)
        return a / np.linalg.norm(a, axis=-1, keepdims=True) * rng.uniform(0.2, 0.8, shp[:-1] + (1,))

    def lam(self, x):
        return div(2, sub(1, keepsum(mul(x, x), -1)))

    def ip(self, x, a, b):
        return tsum(mul(pw(self.lam(x), 2), a, b))

    def covd(self, x, u, d, g, o):
        xu, xg, ug = keepsum(mul(x, u), -1), keepsum(mul(x, g), -1), keepsum(mul(u, g), -1)
        return add(d, mul(self.lam(x), sub(add(mul(xu, g), mul(xg, u)), mul(ug, x))))

    def mob(self, a, b):
        ab, aa, bb = keepsum(mul(a, b), -1), keepsum(mul(a, a), -1), keepsum(mul(b, b), -1)
        num = add(mul(add(1, mul(2, ab), bb), a), mul(sub(1, aa), b))
        return div(num, add(1, mul(2, ab), mul(aa, bb)))

    def ref_exp(self, x, u):
        q = sqrt(keepsum(mul(u, u), -1))
        return self.mob(x, mul(div(np_("tanh", div(mul(self.lam(x), q), 2)), q), u))

    def ref_log(self, x, y):
        z = self.mob(neg(x), y)
        q = sqrt(keepsum(mul(z, z), -1))
        d = sub(x, y)
        h = np_("arcsinh", mul(sqrt(keepsum(mul(d, d), -1)), sqrt(mul(self.lam(x), self.lam(y))), const(Fraction(1, 2))))
        return mul(div(mul(2, h), mul(self.lam(x), q)), z)

    def ref_dist(self, x, y):
        d = sub(x, y)
        q = div(mul(2, keepsum(mul(d, d), -1)), mul(sub(1, keepsum(mul(x, x), -1)), sub(1, keepsum(mul(y, y), -1))))
        return norm(np_("arccosh", add(1, q)))

    def dimension(self):
        return tn.mul(self.kd(), D("n"))

    def typical(self):
        return ("dim8",)


class ObliqueSpace(Space):
    split = 1
    antipodal = True
    cls = "Oblique"

    def slack(self):
        return {"n": sl(2, "n"), "m": sl(2, "m")}

    def args(self):
        return [m, n]

    def shape(self):
        return (m, n)

    def sizes(self):
        return [{"m": 4, "n": 3}]

    def sample(self, rng, shp):
        import numpy as np

        a = rng.standard_normal(shp)
        return a / np.linalg.norm(a, axis=0)

    def rules(self):
        for t in (X, Y, Z):
            (mono, c), = self.tr.env[t].p.t.items()
            a = tn._BYID[mono[0][0]]
            self.model.ctx.add([(a, (-1, 0), 2)], ONE, "unit columns")

    def pt(self, x):
        return [(np_("sum", mul(x, x), axis=0), np_("ones", n))]

    def tang(self, x, v):
        return [(np_("sum", mul(x, v), axis=0), np_("zeros", n))]

    def tparam(self, x, a):
        return sub(a, mul(keepsum(mul(x, a), 0), x))

    def ref_exp(self, x, u):
        q = sqrt(keepsum(mul(u, u), 0))
        return add(mul(np_("cos", q), x), mul(div(np_("sin", q), q), u))

    def ref_log(self, x, y):
        c = keepsum(mul(x, y), 0)
        v = sub(y, mul(c, x))
        return mul(div(np_("arccos", c), sqrt(keepsum(mul(v, v), 0))), v)

    def ref_dist(self, x, y):
        return norm(np_("arccos", np_("sum", mul(x, y), axis=0)))

    def ref_retraction(self, x, u):
        y = add(x, u)
        return div(y, sqrt(keepsum(mul(y, y), 0)))

    def dimension(self):
        return tn.mul(tn.sub(D("m"), ONE), D("n"))

    def typical(self):
        return ("pisqrt", n)

    def mean(self, x, y):
        s = add(x, y)
        return div(s, sqrt(keepsum(mul(s, s), 0)))


def with_k(c, **kw):
    return [type(c.__name__ + v, (c,), dict(K=v, **kw)) for v in ("1", "k")]


SPACES = (
    [EuclideanSpace, Euclidean2, Euclidean3, ComplexEuclideanSpace, ComplexEuclidean2]
    + with_k(SymmetricSpace) + with_k(SkewSpace)
    + [SphereSpace, Sphere2, Sphere3, SubspaceSphere, ComplementSphere]
    + with_k(StiefelSpace) + with_k(StiefelSpace, retr="polar") + with_k(StiefelSpace, square=True)
    + with_k(GrassmannSpace) + with_k(ComplexGrassmannSpace)
    + with_k(GroupSpace) + with_k(GroupSpace, retr="polar") + with_k(UnitarySpace) + with_k(UnitarySpace, retr="polar")
    + with_k(U1Space) + with_k(SO1Space)
    + with_k(SPDSpace) + with_k(HPDSpace) + with_k(SHPDSpace)
    + [PSDSpace, PSDComplexSpace, ElliptopeSpace, ComplexCircleSpace]
    + with_k(PositiveSpace) + with_k(PositiveSpace, par=True) + with_k(PoincareSpace)
    + [ObliqueSpace]
)
