"""Interval analysis of value graphs with rounding.

Every bound is hard: it holds for the computed floating-point value.  Monotone
correctly rounded operations keep non-strict bounds; strict bounds come from masks,
additions of positive constants and quantities that are positive in exact arithmetic
by a margin (strictly positive normal forms), where rounding cannot reach zero except
at the edge of the number range.
"""
import math
from fractions import Fraction

from . import tn
from .terms import Term, const
from .tn import TNError

INF = math.inf


class I:
    """lo <= v <= hi; ls/hs: strict; nz: not zero."""

    __slots__ = ("lo", "hi", "ls", "hs", "nz")

    def __init__(self, lo=-INF, hi=INF, ls=False, hs=False, nz=False):
        self.lo, self.hi, self.ls, self.hs = lo, hi, ls, hs
        self.nz = nz or lo > 0 or hi < 0 or (lo == 0 and ls) or (hi == 0 and hs)

    def __repr__(self):
        return ("(" if self.ls else "[") + "%g, %g" % (self.lo, self.hi) + (")" if self.hs else "]") + (" \\ 0" if self.nz and self.lo < 0 < self.hi else "")

    def meet(self, o):
        lo, ls = max((self.lo, self.ls), (o.lo, o.ls))
        hi, hs = min((self.hi, not self.hs), (o.hi, not o.hs))
        return I(lo, hi, ls, not hs, self.nz or o.nz)

    def join(self, o):
        lo, ls = min((self.lo, self.ls), (o.lo, o.ls))
        hi, hs = max((self.hi, not self.hs), (o.hi, not o.hs))
        return I(lo, hi, ls, not hs, self.nz and o.nz)

    def pos(self):
        return self.lo > 0 or (self.lo == 0 and self.ls)

    def neg(self):
        return self.hi < 0 or (self.hi == 0 and self.hs)


TOP = I()
NONNEG = I(0)
POS = I(0, INF, True)

SAME = {"transpose", "reshape", "squeeze", "expand_dims", "copy", "diagonal", "ravel", "broadcast_to", "repeat", "tile",
        "atleast_1d", "atleast_2d", "atleast_3d", "array", "asarray", "moveaxis", "swapaxes", "float", "ascontiguousarray",
        "real", "max", "min", "amax", "amin", "mean", "average", "sort", "flip", "roll", "conj", "conjugate", "flatten", "item", "astype", "float64", "nan_to_num"}

DEMAND = {
    "arccos": ("within [-1, 1]", lambda r: r.lo >= -1 and r.hi <= 1),
    "arcsin": ("within [-1, 1]", lambda r: r.lo >= -1 and r.hi <= 1),
    "arctanh": ("strictly within (-1, 1)", lambda r: (r.lo > -1 or r.lo == -1 and r.ls) and (r.hi < 1 or r.hi == 1 and r.hs)),
    "arccosh": ("at least 1", lambda r: r.lo >= 1),
    "sqrt": ("not negative", lambda r: r.lo >= 0),
    "math.sqrt": ("not negative", lambda r: r.lo >= 0),
    "log": ("positive", lambda r: r.pos()),
    "log2": ("positive", lambda r: r.pos()),
    "log10": ("positive", lambda r: r.pos()),
    "log1p": ("above -1", lambda r: r.lo > -1 or r.lo == -1 and r.ls),
    "reciprocal": ("not zero", lambda r: r.nz),
    "div": ("not zero", lambda r: r.nz),
}


def strip(t):
    """The array whose elements an indexing-free wrapper passes on."""
    while True:
        if t.op == "mcall" and t.args[0] in ("copy",) and not t.args[2]:
            t = t.args[1]
        elif t.op == "npcall" and t.args[0] in ("asarray", "array", "copy") and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.op == "attr" and t.args[1] == "real" and isinstance(t.args[0], Term) and t.args[0].op in ("npcall",) and t.args[0].args[0] in ("sqrt", "abs"):
            t = t.args[0]
        else:
            return t


def num(t):
    if t.op == "const" and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool):
        return float(t.args[0])
    if t.op == "neg":
        v = num(t.args[0])
        return None if v is None else -v
    if t.op == "attr" and t.args[1] == "eps":
        return 2.0**-52
    if t.op == "attr" and t.args[1] == "epsneg":
        return 2.0**-53
    if t.op == "attr" and t.args[1] == "tiny":
        return 2.0**-1022
    if t.op in ("add", "mul", "div"):
        v = [num(a) for a in t.args]
        if any(x is None for x in v):
            return None
        try:
            return sum(v) if t.op == "add" else math.prod(v) if t.op == "mul" else v[0] / v[1]
        except ZeroDivisionError:
            return None
    return None


def constraints(c, holds):
    """(array, interval) pairs implied by an elementwise condition."""
    if c.op == "not" or c.op == "npcall" and c.args[0] in ("logical_not", "invert"):
        return constraints(c.args[0] if c.op == "not" else c.args[1][0], not holds)
    if c.op in ("and", "or") or c.op == "npcall" and c.args[0] in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
        conj = c.op == "and" or c.op == "npcall" and c.args[0].endswith("_and")
        args = c.args if c.op in ("and", "or") else c.args[1]
        return [x for a in args for x in constraints(a, holds)] if conj == holds else []
    if c.op == "truthy":
        return constraints(c.args[0], holds)
    if c.op in ("lt", "le"):
        a, b = c.args
        strict = c.op == "lt"
        if not holds:
            a, b, strict = b, a, not strict
        va, vb = num(a), num(b)
        if va is not None:
            return [(strip(b), I(va, INF, strict))]
        if vb is not None:
            return [(strip(a), I(-INF, vb, False, strict))]
    if c.op == "eq":
        a, b = c.args
        va, vb = num(a), num(b)
        if va is not None or vb is not None:
            x, v = (b, va) if va is not None else (a, vb)
            if holds:
                return [(strip(x), I(v, v))]
            if v == 0:
                return [(strip(x), I(nz=True))]
    return []


class Ranges:
    def __init__(self, space):
        self.s = space
        self.memo = {}
        self.signs = {}

    # -- exact-arithmetic signs
    def exact(self, t):
        """1/-1 when the normal form is strictly positive/negative, else 0."""
        r = self.signs.get(t)
        if r is None:
            r = 0
            tn.reset_budget()
            try:
                from .manobl import nf

                p = self.s.model.ctx.simp(nf(self.s, t).p)
                if self.strict(p):
                    r = 1
                elif self.strict(tn.scale_by(p, -1)):
                    r = -1
            except (TNError, RecursionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError):
                pass
            self.signs[t] = r
        return r

    def strict(self, p):
        """Every term is nonnegative and one is positive, or a positive quantity of the space."""
        if not p.t:
            return False
        for q in self.s.positive_quantities():
            if not tn.sub(p, q).t:
                return True
        some = False
        for m, c in p.t.items():
            if c < 0:
                return False
            allpos = True
            for aid, idx, e in m:
                k = self.factor(tn._BYID[aid], idx, e)
                if k is None:
                    return False
                allpos = allpos and k
            some = some or allpos
        return some

    def factor(self, a, idx, e):
        """True: positive; False: nonnegative; None: unknown."""
        if "pos" in a.flags or a.kind in ("prime", "dim"):
            return True
        if a.kind == "mat" and a.name in ("cqrR", "chol") and idx and idx[-1] == idx[-2]:
            return True
        if a.kind == "fn" and a.name in ("exp", "cosh"):
            return True
        if a.kind == "pw":
            inner = self.strict(a.args[0])
            if inner:
                return True
            return False if Fraction(e).denominator > 1 and e > 0 else None
        if a.kind == "fn" and a.name in ("abs", "arccos", "arccosh"):
            return False
        if e == int(e) and int(e) % 2 == 0 and e > 0 and self.s.dt != "c":
            return False
        return None

    # -- hard ranges
    def __call__(self, t, cons=()):
        key = (t, cons)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = TOP
            r = self.base(t, cons)
            st = strip(t)
            for x, i in cons:
                if x is st:
                    r = r.meet(i)
            if not r.nz:
                k = self.exact(t)
                if k:
                    r = r.meet(I(0, INF, True) if k > 0 else I(-INF, 0, False, True))
            self.memo[key] = r
        return r

    def base(self, t, cons):
        v = num(t)
        if v is not None:
            return I(v, v)
        f = getattr(self, "r_" + t.op, None)
        return f(t, cons) if f else TOP

    def r_extname(self, t, cons):
        n = t.args[0].split(".")[-1]
        return I(3.14, 3.15) if n == "pi" else TOP

    def r_neg(self, t, cons):
        a = self(t.args[0], cons)
        return I(-a.hi, -a.lo, a.hs, a.ls, a.nz)

    def r_add(self, t, cons):
        # n + (n == 0) with n >= 0
        if len(t.args) == 2:
            for a, b in (t.args, t.args[::-1]):
                if b.op == "eq" and self(a, cons).lo >= 0:
                    cs = constraints(b, True)
                    if cs and cs[0][0] is strip(a) and cs[0][1].lo == 0 == cs[0][1].hi:
                        return POS
        if any(a.op in ("lt", "le", "eq", "not", "and", "or") for a in t.args):
            rs = [I(0, 1) if a.op in ("lt", "le", "eq", "not", "and", "or") else self(a, cons) for a in t.args]
        else:
            rs = [self(a, cons) for a in t.args]
        lo, hi = sum(r.lo for r in rs), sum(r.hi for r in rs)
        lo = -INF if lo != lo else lo
        hi = INF if hi != hi else hi
        # a sum of nonnegative numbers is at least each of them
        return I(lo, hi, lo == 0 and any(r.pos() for r in rs), hi == 0 and any(r.neg() for r in rs))

    def r_mul(self, t, cons):
        if len(t.args) == 2 and t.args[0] is t.args[1] and self.real(t.args[0]):
            a = self(t.args[0], cons)
            return I(0, INF, a.nz)
        r = None
        for a in t.args:
            q = self(a, cons)
            r = q if r is None else self.times(r, q)
        return r

    def times(self, a, b):
        c = [self.prod(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        lo, hi = min(c), max(c)
        nz = a.nz and b.nz
        return I(lo, hi, lo == 0 and nz, hi == 0 and nz, nz)

    @staticmethod
    def prod(x, y):
        return 0.0 if x == 0 or y == 0 else x * y

    def real(self, t):
        """The array is real."""
        if self.s.dt != "c":
            return True
        try:
            from .manobl import nf

            return nf(self.s, t).dt != "c"
        except Exception:
            return False

    def r_div(self, t, cons):
        a, b = self(t.args[0], cons), self(t.args[1], cons)
        if b.pos():
            inv = I(1 / b.hi if b.hi not in (0, INF) else 0, 1 / b.lo if b.lo > 0 else INF, True)
        elif b.neg():
            inv = I(1 / b.hi if b.hi < 0 else -INF, 0, False, True)
        else:
            return TOP
        r = self.times(a, inv)
        return I(r.lo, r.hi, r.lo == 0 and a.nz, r.hi == 0 and a.nz, a.nz)

    def r_pow(self, t, cons):
        e = num(t.args[1])
        a = self(t.args[0], cons)
        if e is not None and e == int(e) and int(e) % 2 == 0 and e > 0 and self.real(t.args[0]):
            lo = min(abs(a.lo), abs(a.hi)) if a.lo > 0 or a.hi < 0 else 0
            m = max(abs(a.lo), abs(a.hi))
            return I(lo**e, m**e if m < INF else INF, a.nz and lo == 0)
        if a.lo >= 0:
            if e is not None and e > 0:
                return I(a.lo**e, a.hi**e if a.hi < INF else INF, a.ls, a.hs)
            return I(0, INF, a.pos())
        return TOP

    def r_ite(self, t, cons):
        c, a, b = t.args
        return self(a, cons + tuple(constraints(c, True))).join(self(b, cons + tuple(constraints(c, False))))

    def r_min2(self, t, cons):
        r = self(t.args[0], cons)
        for a in t.args[1:]:
            r = self.lower(r, self(a, cons))
        return r

    def r_max2(self, t, cons):
        r = self(t.args[0], cons)
        for a in t.args[1:]:
            r = self.upper(r, self(a, cons))
        return r

    @staticmethod
    def lower(a, b):
        lo, ls = min((a.lo, a.ls), (b.lo, b.ls))
        hi, nhs = min((a.hi, not a.hs), (b.hi, not b.hs))
        return I(lo, hi, ls, not nhs, a.nz and b.nz)

    @staticmethod
    def upper(a, b):
        lo, ls = max((a.lo, a.ls), (b.lo, b.ls))
        hi, nhs = max((a.hi, not a.hs), (b.hi, not b.hs))
        return I(lo, hi, ls, not nhs, a.nz and b.nz)

    def r_lt(self, t, cons):
        return I(0, 1)

    r_le = r_eq = r_not = r_and = r_or = r_lt

    def r_attr(self, t, cons):
        b, n = t.args
        if n == "T" and isinstance(b, Term):
            return self(b, cons)
        if n == "real" and isinstance(b, Term) and self.real(b):
            return self(b, cons)
        if n == "ndim" or n == "size":
            return I(0)
        return TOP

    def r_getitem(self, t, cons):
        b, i = t.args
        if b.op == "npcall" and b.args[0] == "linalg.svd" and i.op == "const" and i.args[0] == 1:
            return NONNEG
        if b.op == "npcall" and b.args[0] == "linalg.eigh":
            return self.eigen(b.args[1][0]) if i.op == "const" and i.args[0] == 0 else TOP
        r = self(b, cons)
        for x, q in constraints(i, True):
            if x is strip(b):
                r = r.meet(q)
        return r

    r_select = r_gather = r_getitem

    def eigen(self, m):
        from .manobl import manifest_pd, nf

        try:
            tn.reset_budget()
            v = nf(self.s, m)
            if manifest_pd(v.p, v.r, self.s.model.unitdraws):
                return POS
        except Exception:
            pass
        if self.congruent(m):
            return POS
        return TOP

    def congruent(self, m):
        """A P A^H with P a positive definite point and A an invertible factor of one."""
        from .manobl import prove
        from .mterm import H
        from .spaces import X, Y

        pd = [x for p in (X, Y) for x, matrix in self.s.ineq(p) if matrix]
        if m in pd:
            return True
        if m.op != "matmul" or len(m.args) != 2:
            return False
        for a, p, b in ([m.args[0].args + (m.args[1],)] if m.args[0].op == "matmul" and len(m.args[0].args) == 2 else []) + (
            [(m.args[0],) + m.args[1].args] if m.args[1].op == "matmul" and len(m.args[1].args) == 2 else []
        ):
            if p in pd and self.regular(a, pd) and prove(self.s, b, H(a))[0] is True:
                return True
        return False

    def regular(self, a, pd):
        if a in pd:
            return True
        return a.op == "npcall" and a.args[0] in ("linalg.inv", "linalg.cholesky") and self.regular(a.args[1][0], pd)

    def r_setitem(self, t, cons):
        b, i, v = t.args
        r = self(b, cons)
        for x, q in constraints(i, False):
            if x is strip(b):
                r = r.meet(q)
        return r.join(self(v, cons))

    r_store = r_setitem

    def r_slice(self, t, cons):
        return self(t.args[0], cons)

    def r_mcall(self, t, cons):
        n, b, a, kw = t.args
        return self.fn(n, (b,) + tuple(a), dict(kw), cons)

    def r_npcall(self, t, cons):
        n, a, kw = t.args[0], t.args[1], dict(t.args[2]) if len(t.args) > 2 else {}
        return self.fn(n, tuple(a), kw, cons)

    def fn(self, n, a, kw, cons):
        x = a[0] if a else None
        if n == "clip":
            lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
            hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
            r = self(x, cons)
            if hi is not None and hi is not const(None):
                r = self.lower(r, self(hi, cons))
            if lo is not None and lo is not const(None):
                r = self.upper(r, self(lo, cons))
            return r
        if n in ("min2", "minimum", "fmin"):
            return self.lower(self(a[0], cons), self(a[1], cons))
        if n in ("max2", "maximum", "fmax"):
            return self.upper(self(a[0], cons), self(a[1], cons))
        if n == "where" and len(a) == 3:
            return self(a[1], cons + tuple(constraints(a[0], True))).join(self(a[2], cons + tuple(constraints(a[0], False))))
        if n == "linalg.svd":
            return NONNEG if kw.get("compute_uv") is const(False) else TOP
        if n == "linalg.eigvalsh":
            return self.eigen(x)
        if n in ("abs", "absolute", "fabs"):
            r = self(x, cons)
            m = max(abs(r.lo), abs(r.hi))
            lo = min(abs(r.lo), abs(r.hi)) if r.lo > 0 or r.hi < 0 else 0
            return I(lo, m, r.nz and lo == 0)
        if n in ("linalg.norm",):
            return NONNEG
        if n == "sqrt":
            r = self(x, cons)
            return I(math.sqrt(r.lo) if r.lo > 0 else 0, math.sqrt(r.hi) if 0 <= r.hi < INF else INF, r.pos())
        if n == "square":
            r = self(x, cons)
            return I(0, INF, r.nz) if self.real(x) else TOP
        if n == "exp":
            return POS
        if n == "cosh":
            return I(1)
        if n in ("tanh", "sin", "cos", "sign"):
            r = self(x, cons)
            if n == "tanh" and r.lo >= 0:
                return I(0, 1, r.pos())
            return I(-1, 1)
        if n == "arccos":
            return I(0, 3.1415927)
        if n == "arccosh":
            return NONNEG
        if n in ("arctan", "arctanh", "arcsinh", "sinh", "expm1"):
            r = self(x, cons)
            return I(0 if r.lo >= 0 else -INF, 0 if r.hi <= 0 else INF, r.pos(), r.neg(), r.nz)
        if n in ("sum", "nansum", "trace"):
            r = self(x, cons)
            return I(0 if r.lo >= 0 else -INF, 0 if r.hi <= 0 else INF, r.pos(), r.neg())
        if n in ("tensordot", "vdot", "inner", "dot") and len(a) >= 2 and a[0] is a[1] and self.real(a[0]):
            return NONNEG if n != "dot" else TOP
        if n in ("sinc",):
            return I(-1, 1)
        if n in ("ones", "ones_like"):
            return I(1, 1)
        if n in ("zeros", "zeros_like"):
            return I(0, 0)
        if n in ("full", "full_like") and len(a) > 1:
            return self(a[1], cons)
        if n in SAME and x is not None:
            if n == "real" and not self.real(x):
                return TOP
            if n in ("conj", "conjugate") and not self.real(x):
                return TOP
            if n == "sort" or n == "nan_to_num":
                return self(x, cons)
            return self(x, cons)
        return TOP

    # -- application sites of partial functions
    def sites(self, t):
        """(term, function, argument, constraints) for every application reachable in the value."""
        out = []
        seen = set()

        def walk(t, cons):
            if (t, cons) in seen:
                return
            seen.add((t, cons))
            if t.op == "div":
                out.append((t, "div", t.args[1], cons))
            elif t.op == "npcall" and t.args[0] in DEMAND and t.args[1]:
                out.append((t, t.args[0], t.args[1][0], cons))
            elif t.op == "pow":
                e = num(t.args[1])
                if e is None or e < 0 or e != int(e):
                    out.append((t, "pow", t.args[0], cons))
            if t.op == "ite":
                walk(t.args[0], cons)
                walk(t.args[1], cons + tuple(constraints(t.args[0], True)))
                walk(t.args[2], cons + tuple(constraints(t.args[0], False)))
                return
            if t.op in ("setitem", "store"):
                # entries selected by the index are replaced
                walk(t.args[0], cons + tuple(constraints(t.args[1], False)))
                walk(t.args[1], cons)
                walk(t.args[2], cons)
                return
            if t.op == "npcall" and t.args[0] == "where" and len(t.args[1]) == 3:
                c, a, b = t.args[1]
                walk(c, cons)
                walk(a, cons + tuple(constraints(c, True)))
                walk(b, cons + tuple(constraints(c, False)))
                return

            def go(a):
                if isinstance(a, Term):
                    walk(a, cons)
                elif isinstance(a, tuple):
                    for x in a:
                        go(x)

            for a in t.args:
                go(a)

        walk(t, ())
        return out

    def demand(self, fn, arg, cons, site):
        """(proved, demanded, range)"""
        r = self(arg, cons)
        if fn == "pow":
            e = num(site.args[1])
            if e is not None and e == int(e):
                return r.nz, "not zero", r
            if e is not None and e > 0:
                return r.lo >= 0, "not negative", r
            return r.pos(), "positive", r
        what, ok = DEMAND[fn]
        return ok(r), what, r
