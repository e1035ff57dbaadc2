"""C47: the stacked matrix helpers compute what they document, matrix by matrix."""
import os

from ..manobl import *
from ..man import flatten_value
from ..interp import Dead
from ..opt import entry_node
from ..ranges import Ranges
from ..spaces import with_k
from ..values import Val, Func
from .. import opt_common as oc

RULE = (
    "Every helper of pymanopt.tools.multi is executed on symbolic matrices (real and complex, one matrix and a stack, square and tall). "
    "Obligations on the normal forms: transposes and Hermitian conjugates, the symmetric, Hermitian and skew parts, identities, "
    "exponential and logarithm of each matrix for both settings of the flag, and the QR factorisation with orthonormal columns, upper "
    "triangular factor and real nonnegative diagonal; shape and number type; arrays that are neither matrices nor stacks are refused by multiqr."
)
FLOOR = 60
MOD = "pymanopt.tools.multi"


# on the spaces used W is a general matrix, U symmetric or Hermitian and X positive definite


def spaces(program):
    out = []
    for S in with_k(SPDSpace) + with_k(HPDSpace):
        out.append((S, "square"))
    for S in with_k(StiefelSpace) + with_k(ComplexGrassmannSpace):
        out.append((S, "tall"))
    return out


def run(rep, tier):
    program = load(oc.ROOT)
    for S, kind in spaces(program):
        try:
            s = S(program)
            h = Helpers(rep, s, program, kind)
            h.run()
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"analysis@{S.__name__}", "analysis failed: %r" % e)
    try:
        s = EuclideanSpace(program)
        h = Helpers(rep, s, program, "vector")
        t = h.helper("refused", "multiqr", W)
        h.rep.verdict(h.key("refused", "multiqr"), True if t == ["ValueError"] else False if t is not None and not isinstance(t, list) else None, "raises %s" % (t,) if isinstance(t, list) else "accepts a vector", s.run().at)
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        rep.unk("analysis@vectors", "analysis failed: %r" % e)


class AnyRank(Ranges):
    """The normal forms assume matrices of full rank, the ranges here do not."""

    def exact(self, t):
        return 0


class Helpers(Ob):
    def __init__(self, rep, s, program, kind):
        super().__init__(rep, s)
        self.program, self.kind = program, kind
        self.stack = str(getattr(s, "K", "1")) != "1"
        self.tag = "%s %s%s" % ("complex" if s.dt == "c" else "real", "stack of " if self.stack else "", {"square": "square matrices", "tall": "tall matrices", "vector": "vector"}[kind])
        rep.count("helper configurations")

    def key(self, rule, method):
        return f"{rule}@{method}[{self.tag}]"

    def helper(self, rule, name, *args, **kw):
        """The value of a helper; reported when it raises on every path."""
        f = self.program.get(MOD, name)
        if f is None:
            return None
        r = self.r
        r.at = "%s:%s %s" % (MOD, getattr(getattr(f, "node", None), "lineno", "?"), name)
        self.rep.count("helpers executed symbolically")
        it, st = r.it, r.st.copy()
        it.sinks.append([])
        v = None
        try:
            v = it.call(f, [Val(a) if isinstance(a, Term) else it.lift(a) for a in args], {k: it.lift(x) for k, x in kw.items()}, st, entry_node("h:" + name))
        except Dead:
            pass
        sink = it.sinks.pop()
        kinds = sorted({x[0] for x in sink})
        if v is None:
            return kinds
        t = flatten_value(it, v, st)
        for x in t if isinstance(t, tuple) else (t,):
            why = self.rejected(x)
            if why:
                self.rep.bad(self.key(rule, name), why, self.r.at)
                return None
        return t

    def value(self, rule, name, *args, **kw):
        t = self.helper(rule, name, *args, **kw)
        if isinstance(t, list):
            self.rep.add(self.key(rule, name), "violated" if t and "?" not in t else "undetermined", "raises %s on every path" % ", ".join(t), self.r.at)
            return None
        if t is not None and not isinstance(t, Term):
            self.rep.unk(self.key(rule, name), "not one array", self.r.at)
            return None
        return t

    def eq(self, rule, method, l, r, order=None):
        if l is None or r is None:
            return None
        v, why = decide(self.s, l, r, order)
        self.rep.verdict(self.key(rule, method), v, why, self.r.at)
        return v

    def check(self, name, t, want, dt=None, rule="value", shape=None):
        if t is None:
            return
        if self.array(name, t, dt or self.s.dt, rule, shape):
            self.eq(rule, name, t, want)

    def array(self, name, t, dt, rule, shape=None):
        v = nf_or_none(self.s, t)
        if v is None:
            if dt == "f" and self.complex_value(t):
                self.rep.bad(self.key(rule, name), "real numbers expected", self.r.at)
                return False
            return True
        want = tuple(self.s.axes() if shape is None else shape)
        if tuple(v.axes) != want:
            self.rep.bad(self.key(rule, name), "shape %s, expected %s" % ([tn.show(x) for x in v.axes], [tn.show(x) for x in want]), self.r.at)
            return False
        if (v.dt == "c") != (dt == "c"):
            self.rep.bad(self.key(rule, name), "%s numbers expected" % ("complex" if dt == "c" else "real"), self.r.at)
            return False
        self.rep.ok(self.key(rule + " array", name), "shape and number type", self.r.at)
        return True

    def complex_value(self, t):
        import numpy as np

        from ..tnum import Num

        for rng, sz in witnesses(self.s, 1):
            try:
                with np.errstate(all="ignore"):
                    return np.iscomplexobj(Num(self.s.numenv(rng, sz), rng)(t))
            except Exception:
                return False

    def run(self):
        ax = self.s.axes()
        flip = tuple(ax[:-2]) + (ax[-1], ax[-2])
        self.check("multitransp", self.value("value", "multitransp", W), T(W), shape=flip)
        self.check("multihconj", self.value("value", "multihconj", W), H(W), shape=flip)
        if self.kind == "square":
            self.square()
        else:
            self.tall()

    def square(self):
        half = const(Fraction(1, 2))
        parts = {
            "multisym": mul(half, add(W, T(W))), "multiherm": mul(half, add(W, H(W))),
            "multiskew": mul(half, sub(W, T(W))), "multiskewh": mul(half, sub(W, H(W))),
        }
        for name, want in parts.items():
            self.check(name, self.value("value", name, W), want)
        if self.stack and self.s.dt == "f":
            k, n = sym("k"), sym("n")
            self.check("multieye", self.value("value", "multieye", k, n), add(eye(n), mul(0, W)))
        logm = lambda x: ext("scipy.linalg.logm", x)
        expm = lambda x: ext("scipy.linalg.expm", x)
        self.check("multilogm", self.value("value", "multilogm", X), logm(X))
        self.check("multiexpm", self.value("value", "multiexpm", W), expm(W))
        self.check("multilogm", self.value("positive definite", "multilogm", X, positive_definite=True), logm(X), rule="positive definite")
        self.check("multiexpm", self.value("symmetric", "multiexpm", U, symmetric=True), expm(U), rule="symmetric")

    def tall(self):
        t = self.helper("value", "multiqr", W)
        name = "multiqr"
        if isinstance(t, list):
            self.rep.add(self.key("value", name), "violated" if t and "?" not in t else "undetermined", "raises %s on every path" % ", ".join(t), self.r.at)
            return
        if t is None:
            return
        if not isinstance(t, tuple) or len(t) != 2:
            self.rep.unk(self.key("value", name), "not a pair", self.r.at)
            return
        q, r = t
        at = self.r.at
        ax = self.s.axes()
        sq = tuple(ax[:-2]) + (ax[-1], ax[-1])
        if not (self.array(name, q, self.s.dt, "orthonormal") and self.array(name, r, self.s.dt, "triangular", sq)):
            return
        self.eq("product", name, mm(q, r), W)
        z = mul(0, mm(H(W), W))
        self.eq("orthonormal columns", name, mm(H(q), q), add(eye(self.s.args()[1]), z))
        if self.triangular(r):
            self.rep.ok(self.key("upper triangular", name), "the triangular factor, rows scaled", at)
        else:
            v, why = differ(self.s, np_("tril", r, const(-1)), z)
            self.rep.verdict(self.key("upper triangular", name), False if v is True else None, why, at)
        d = np_("diagonal", r, axis1=const(-2), axis2=const(-1))
        self.eq("nonnegative diagonal", name, d, np_("abs", d))
        self.defined(name, (q, r))

    def defined(self, name, ts):
        """No division by a diagonal entry that vanishes for a rank-deficient matrix."""
        ranges = AnyRank(self.s)
        for t in ts:
            for site, fn, arg, cons in ranges.sites(t):
                ok, what, have = ranges.demand(fn, arg, cons, site)
                if ok:
                    self.rep.ok(self.key("defined for every rank", name), "the argument of %s is %s" % (fn, what), self.r.at)
                    continue
                why = self.infinite(ts)
                self.rep.verdict(self.key("defined for every rank", name), False if why else None, why or "%s: known range %r, must be %s" % (fn, have, what), self.r.at)

    def infinite(self, ts):
        """The factors of the zero matrix are not finite."""
        import numpy as np

        from ..tnum import Num

        for rng, sz in witnesses(self.s, 1):
            try:
                env = self.s.numenv(rng, sz)
                env[W] = 0 * env[W]
                ev = Num(env, rng)
                with np.errstate(all="ignore"):
                    if not all(np.all(np.isfinite(ev(t))) for t in ts):
                        return "not finite for a matrix of zeros"
            except Exception:
                return None
        return None

    def triangular(self, r):
        """The triangular factor of a QR factorisation times factors of single entries."""
        v = nf_or_none(self.s, r)
        if v is None or len(v.p.t) != 1:
            return False
        (mono, c), = v.p.t.items()
        hits = [f for f in mono if getattr(tn._BYID[f[0]], "name", None) == "cqrR"]
        return len(hits) == 1 and hits[0][2] == 1 and tuple(hits[0][1])[-2:] == (v.r - 2, v.r - 1)


def nf_or_none(s, t):
    try:
        return nf(s, t)
    except Exception:
        return None
