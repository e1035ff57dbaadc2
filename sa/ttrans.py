"""Translate value-graph terms of array code into index-notation polynomials."""
from fractions import Fraction

from . import tn
from .terms import Term, const, mk, sym
from .tn import TNError, DivZero, Poly, ZERO, ONE, F1


class TV:
    __slots__ = ("axes", "p", "dt", "note")

    def __init__(self, axes, p, dt="f", note=None):
        self.axes, self.p, self.dt, self.note = tuple(axes), p, dt, note

    @property
    def r(self):
        return len(self.axes)

    def __repr__(self):
        return f"TV[{','.join(tn.show(a) for a in self.axes)}]({tn.show(self.p)})"


class Blk:
    """Block matrix: rows/cols dims and a grid of TVs with common batch axes."""

    def __init__(self, rows, cols, g):
        self.rows, self.cols, self.g = tuple(rows), tuple(cols), [list(r) for r in g]
        self.batch = ()
        for r in self.g:
            for v in r:
                if len(v.axes) - 2 > len(self.batch):
                    self.batch = v.axes[:-2]
        self.dt = "c" if any(v.dt == "c" for r in self.g for v in r) else "f"

    @property
    def axes(self):
        s = lambda xs: _sum(xs)
        return self.batch + (s(self.rows), s(self.cols))

    @property
    def r(self):
        return len(self.axes)


class Bool:
    """Uniform truth value of an elementwise condition; None is unknown."""

    def __init__(self, v, why=None):
        self.v, self.why = v, why


class Dims(tuple):
    """A shape value."""


def _sum(xs):
    r = ZERO
    for x in xs:
        r = tn.add(r, x)
    return r


def is1(d):
    return d == ONE


def symv(name, axes, dt="f", flags=()):
    """Fresh symbol value."""
    fl = set(flags)
    if dt == "c":
        fl.add("c")
    keep = [k for k, d in enumerate(axes) if not is1(d)]
    a = tn.atom("sym", name, (), tuple(axes[k] for k in keep), fl)
    return TV(axes, tn.from_atom(a, tuple(keep)), dt)


def bshape(x, y):
    n = max(len(x), len(y))
    x = (ONE,) * (n - len(x)) + tuple(x)
    y = (ONE,) * (n - len(y)) + tuple(y)
    out = []
    for a, b in zip(x, y):
        if a == b:
            out.append(a)
        elif is1(a):
            out.append(b)
        elif is1(b):
            out.append(a)
        else:
            raise TNError(f"shapes do not broadcast: {tn.show(a)} / {tn.show(b)}")
    return tuple(out)


def lift(v, r):
    """Polynomial of v in a frame of rank r (right aligned)."""
    o = r - len(v.axes)
    if not o:
        return v.p
    fd = tn.free_dims(v.p)
    return tn.relabel(v.p, {k: k + o for k in fd}) if fd else v.p


def dtj(*vs):
    if any(v.dt == "c" for v in vs):
        return "c"
    return "f"


def tadd(a, b):
    s = bshape(a.axes, b.axes)
    return TV(s, tn.add(lift(a, len(s)), lift(b, len(s))), dtj(a, b))


def tmul(a, b):
    s = bshape(a.axes, b.axes)
    return TV(s, tn.mul(lift(a, len(s)), lift(b, len(s))), dtj(a, b))


def tneg(a):
    if isinstance(a, Blk):
        return Blk(a.rows, a.cols, [[tneg(v) for v in r] for r in a.g])
    return TV(a.axes, tn.neg(a.p), a.dt)


def tsub(a, b):
    return tadd(a, tneg(b))


def tpow(a, q):
    return TV(a.axes, tn.power(a.p, q), a.dt)


def tconst(c):
    return TV((), tn.num(c), "c" if isinstance(c, complex) else "f")


def tconj(a):
    if isinstance(a, Blk):
        return Blk(a.rows, a.cols, [[tconj(v) for v in r] for r in a.g])
    return TV(a.axes, tn.conj(a.p) if a.dt == "c" else a.p, a.dt)


def treal(a):
    return TV(a.axes, tn.real(a.p) if a.dt == "c" else a.p, "f")


def perm(a, order):
    """Axes permutation: new axis k is old axis order[k]."""
    inv = {o: k for k, o in enumerate(order)}
    fd = tn.free_dims(a.p)
    return TV([a.axes[o] for o in order], tn.relabel(a.p, {k: inv[k] for k in fd}) if fd else a.p, a.dt)


def tT(a):
    """Swap the last two axes."""
    if isinstance(a, Blk):
        return Blk(a.cols, a.rows, [[tT(a.g[i][j]) for i in range(len(a.rows))] for j in range(len(a.cols))])
    r = a.r
    if r < 2:
        return a
    return perm(a, list(range(r - 2)) + [r - 1, r - 2])


def tH(a):
    return tT(tconj(a))


def drop_axis(a, k):
    """Remove a length-one axis."""
    fd = tn.free_dims(a.p)
    m = {i: (i if i < k else i - 1) for i in fd if i != k}
    return TV(a.axes[:k] + a.axes[k + 1:], tn.relabel(a.p, m) if m else a.p, a.dt)


def new_axis(a, k):
    fd = tn.free_dims(a.p)
    m = {i: (i if i < k else i + 1) for i in fd}
    return TV(a.axes[:k] + (ONE,) + a.axes[k:], tn.relabel(a.p, m) if m else a.p, a.dt)


def tsum(a, axes=None, keep=False):
    r = a.r
    if axes is None:
        axes = list(range(r))
    axes = [x % r for x in axes]
    ls = ["s%d" % k if k in axes else k for k in range(r)]
    out = [k for k in range(r) if k not in axes]
    dims = {"s%d" % k: a.axes[k] for k in axes}
    # a summed axis on which the polynomial does not depend contributes its length
    p = tn.einsum([(a.p, ls)], out, dims)
    res = TV([a.axes[k] for k in out], p, a.dt)
    if keep:
        for k in sorted(axes):
            res = new_axis(res, k)
    return res


def tmm(a, b):
    """numpy matmul."""
    if isinstance(a, Blk) or isinstance(b, Blk):
        return bmm(a, b)
    a1, b1 = a.r == 1, b.r == 1
    if a.r == 0 or b.r == 0:
        raise TNError("matmul of a scalar")
    if a1:
        a = new_axis(a, 0)
    if b1:
        b = new_axis(b, 1)
    if a.axes[-1] != b.axes[-2]:
        raise TNError(f"matmul dimensions differ: {tn.show(a.axes[-1])} / {tn.show(b.axes[-2])}")
    bs = bshape(a.axes[:-2], b.axes[:-2])
    nb = len(bs)
    la = ["b%d" % (k + nb - (a.r - 2)) for k in range(a.r - 2)] + ["i", "k"]
    lb = ["b%d" % (k + nb - (b.r - 2)) for k in range(b.r - 2)] + ["k", "j"]
    p = tn.einsum([(a.p, la), (b.p, lb)], ["b%d" % k for k in range(nb)] + ["i", "j"], {"k": a.axes[-1]})
    res = TV(bs + (a.axes[-2], b.axes[-1]), p, dtj(a, b))
    if b1:
        res = drop_axis(res, res.r - 1)
    if a1:
        res = drop_axis(res, res.r - 1 - (0 if b1 else 1))
    return res


def as_blk(a, like, which):
    """Split an ordinary zero/identity value along block dims if possible."""
    if isinstance(a, Blk):
        return a
    raise TNError("block matrix product with an unsplit operand")


def split_identity(a, dims):
    """A multiple of the identity along the blocks of the other operand."""
    i, j = a.r - 2, a.r - 1
    if a.r != 2 or a.axes[0] != a.axes[1] or a.axes[0] != _sum(dims):
        raise TNError("block product")
    c = {}
    for mono, q in a.p.t.items():
        d = [f for f in mono if tn._BYID[f[0]].kind == "delta" and set(f[1]) == {i, j}]
        if len(d) != 1 or any(x in (i, j) for f in mono if f is not d[0] for x in f[1]):
            raise TNError("block product")
        c[tuple(f for f in mono if f is not d[0])] = q
    c = Poly(c)
    return Blk(dims, dims, [[TV((x, y), tn.mul(c, tn.from_atom(tn.delta(x), (0, 1))) if s == t else ZERO, a.dt) for t, y in enumerate(dims)] for s, x in enumerate(dims)])


def bmm(a, b):
    A = a if isinstance(a, Blk) else None
    B = b if isinstance(b, Blk) else None
    if A is None:
        if len(B.rows) == 1 and a.r >= 2:
            A = Blk([a.axes[-2]], [a.axes[-1]], [[a]])
        else:
            A = split_identity(a, B.rows)
    if B is None:
        if len(A.cols) == 1 and b.r >= 2:
            B = Blk([b.axes[-2]], [b.axes[-1]], [[b]])
        else:
            B = split_identity(b, A.cols)
    if A.cols != B.rows:
        raise TNError("block dims differ")
    g = []
    for i in range(len(A.rows)):
        row = []
        for j in range(len(B.cols)):
            acc = None
            for k in range(len(A.cols)):
                t = tmm(A.g[i][k], B.g[k][j])
                acc = t if acc is None else tadd(acc, t)
            row.append(acc)
        g.append(row)
    return unblk(Blk(A.rows, B.cols, g))


def unblk(b):
    if isinstance(b, Blk) and len(b.rows) == 1 and len(b.cols) == 1:
        return b.g[0][0]
    return b


def fro2(a):
    """Sum of squared moduli."""
    if isinstance(a, Blk):
        acc = ZERO
        for r in a.g:
            for v in r:
                acc = tn.add(acc, fro2(v).p)
        return TV((), acc)
    return tsum(tmul(tconj(a), a))


def real_simp(tr, p):
    """Drop a conjugate symmetrisation when the value is already real."""
    return p


class Trans:
    """One analysis context: symbol values, facts and the term memo."""

    def __init__(self, model):
        self.env = {}
        self.ctx = model.ctx
        self.model = model
        self.memo = {}
        self.tiny = False
        self.generic = []
        self.randoms = {}
        self._work = set()

    # -- dimensions

    def dimof(self, t):
        """Poly of an integer-valued term."""
        v = self.tv(t)
        if isinstance(v, TV) and v.r == 0:
            return v.p
        raise TNError("not a dimension")

    def shape_of(self, t):
        if t.op in ("tuple", "list"):
            return tuple(self.dimof(x) for x in t.args)
        v = self.tv(t)
        if isinstance(v, Dims):
            return tuple(v)
        if isinstance(v, TV) and v.r == 0:
            return (v.p,)
        raise TNError("shape")

    # -- main

    def tv(self, t):
        r = self.memo.get(t)
        if r is None:
            if t in self._work:
                raise TNError("cyclic term")
            self._work.add(t)
            try:
                r = self._tv(t)
            except TNError as e:
                r = e
            finally:
                self._work.discard(t)
            if isinstance(r, TV):
                r = TV(r.axes, self.ctx.simp(r.p), r.dt, r.note)
            self.memo[t] = r
        if isinstance(r, TNError):
            raise r
        return r

    def arr(self, t, raw=False):
        v = self.tv(t)
        if isinstance(v, (TV, Blk)):
            if isinstance(v, TV) and v.note and not raw:
                return self.forced(v)
            return v
        raise TNError(f"array expected: {type(v).__name__}")

    def a(self, t, raw=False):
        v = self.tv(t)
        if isinstance(v, TV):
            if v.note and not raw:
                return self.forced(v)
            return v
        raise TNError(f"plain array expected: {type(v).__name__}")

    def kwargs(self, kw):
        return {k: v for k, v in kw}

    def _tv(self, t):
        if t in self.env:
            return self.env[t]
        f = getattr(self, "t_" + t.op, None)
        if f is None:
            raise TNError("operation " + t.op)
        return f(t)

    def t_const(self, t):
        c = t.args[0]
        if isinstance(c, bool):
            return Bool(c)
        if isinstance(c, (int, float, complex, Fraction)):
            return tconst(c)
        raise TNError(f"constant {c!r}")

    def t_sym(self, t):
        v = self.model.symbol(t)
        if v is None:
            raise TNError(f"symbol {t.args[0]}")
        return v

    def t_add(self, t):
        acc = None
        for x in t.args:
            v = self.tv(x)
            if isinstance(v, Bool):
                v = self.as01(v)
            if isinstance(v, Blk) or isinstance(acc, Blk):
                if acc is None:
                    acc = v
                    continue
                if isinstance(acc, Blk) and isinstance(v, Blk) and acc.rows == v.rows and acc.cols == v.cols:
                    acc = Blk(acc.rows, acc.cols, [[tadd(p, q) for p, q in zip(a, b)] for a, b in zip(acc.g, v.g)])
                    continue
                raise TNError("block sum")
            if not isinstance(v, TV):
                raise TNError("sum of non-arrays")
            acc = v if acc is None else tadd(acc, v)
        return acc

    def t_sub(self, t):
        return tsub(self.a(t.args[0]), self.a(t.args[1]))

    def t_neg(self, t):
        return tneg(self.arr(t.args[0]))

    def t_mul(self, t):
        acc = None
        for x in t.args:
            v = self.tv(x)
            if isinstance(v, Bool):
                v = self.as01(v)
            if isinstance(v, Blk) or isinstance(acc, Blk):
                if acc is None:
                    acc = v
                    continue
                b, s = (acc, v) if isinstance(acc, Blk) else (v, acc)
                if isinstance(s, TV) and s.r == 0:
                    acc = Blk(b.rows, b.cols, [[tmul(q, s) for q in r] for r in b.g])
                    continue
                raise TNError("block product")
            acc = v if acc is None else tmul(acc, v)
        return acc

    def as01(self, b):
        if b.v is None:
            raise TNError("mask")
        return tconst(1 if b.v else 0)

    def t_div(self, t):
        a, b = self.arr(t.args[0]), self.a(t.args[1])
        inv = TV(b.axes, tn.power(self.ctx.simp(b.p), -1), b.dt)
        if isinstance(a, Blk):
            return Blk(a.rows, a.cols, [[tmul(q, inv) for q in r] for r in a.g])
        return tmul(a, inv)

    def t_floordiv(self, t):
        a, b = self.a(t.args[0]), self.a(t.args[1])
        ca, cb = a.p.const(), b.p.const()
        if ca is not None and cb:
            return tconst(ca // cb)
        return self.integral(tmul(a, TV(b.axes, tn.power(b.p, -1), b.dt)))

    def integral(self, v):
        """The value itself when it is a whole number for all sizes; sizes are whole numbers."""
        import itertools
        import math

        p = self.ctx.simp(v.p)
        atoms, den = [], 1
        for mono, c in p.t.items():
            c = tn.Fraction(c)
            den = den * c.denominator // math.gcd(den, c.denominator)
            for aid, idx, e in mono:
                if idx or tn._BYID[aid].kind != "dim" or e != int(e) or e < 0:
                    raise TNError("not known to be a whole number")
                if aid not in atoms:
                    atoms.append(aid)
        if den > 1 and den ** len(atoms) > 5000:
            raise TNError("not known to be a whole number")
        if den > 1:
            for r in itertools.product(range(den), repeat=len(atoms)):
                at = dict(zip(atoms, r))
                q = tn.Fraction(0)
                for mono, c in p.t.items():
                    m = tn.Fraction(c)
                    for aid, idx, e in mono:
                        m *= at[aid] ** int(e)
                    q += m
                if q.denominator != 1:
                    raise TNError("rounds to a whole number")
        return v

    def t_pow(self, t):
        a = self.a(t.args[0])
        e = self.a(t.args[1])
        c = e.p.const()
        if c is not None:
            return tpow(a, c)
        s = bshape(a.axes, e.axes)
        p = tn.fn("exp", tn.mul(lift(e, len(s)), tn.fn("log", lift(a, len(s)))))
        return TV(s, p, dtj(a, e))

    def t_matmul(self, t):
        r = self.raveled_dot(t.args[0], t.args[1])
        if r is not None:
            return r
        return tmm(self.arr(t.args[0]), self.arr(t.args[1]))

    # -- conditions

    def t_not(self, t):
        b = self.tv(t.args[0])
        if isinstance(b, Bool):
            return Bool(None if b.v is None else not b.v)
        raise TNError("not")

    def t_truthy(self, t):
        r = self.model.decide(t)
        if r is not None:
            return Bool(r)
        raise TNError("truth value")

    def t_and(self, t):
        vs = [self.tv(x) for x in t.args]
        if any(v.v is False for v in vs):
            return Bool(False)
        if all(v.v is True for v in vs):
            return Bool(True)
        return Bool(None)

    def t_or(self, t):
        vs = [self.tv(x) for x in t.args]
        if any(v.v is True for v in vs):
            return Bool(True)
        if all(v.v is False for v in vs):
            return Bool(False)
        return Bool(None)

    def t_is(self, t):
        r = self.model.decide(t)
        if r is not None:
            return Bool(r)
        if t.args[0] is t.args[1]:
            return Bool(True)
        return Bool(False, "distinct arguments")

    def t_eq(self, t):
        return self.compare("eq", t)

    def t_lt(self, t):
        return self.compare("lt", t)

    def t_le(self, t):
        return self.compare("le", t)

    def compare(self, op, t):
        r = self.model.decide(t)
        if r is not None:
            return Bool(r)
        a, b = self.a(t.args[0]), self.a(t.args[1])
        s = bshape(a.axes, b.axes)
        d = self.ctx.simp(tn.sub(lift(b, len(s)), lift(a, len(s))))  # b - a
        if self.ctx.iszero(d):
            return Bool(op in ("eq", "le"))
        sg = self.sign(d)
        if sg is not None:
            return Bool(False if op == "eq" else sg > 0)
        if op == "eq":
            self.generic.append(t)
            return Bool(False, "generic")
        # constants against generic non-negative expressions
        for x, y, s2 in ((a, b, 1), (b, a, -1)):
            c = x.p.const()
            if c is not None and 0 <= c <= Fraction(1, 1000) and self.nonneg(y.p):
                self.generic.append(t)
                return Bool(s2 > 0, "generic")
        return Bool(None)

    def sign(self, d):
        """Sign of a polynomial all of whose monomials are positive."""
        if d.t and all(c > 0 for c in d.t.values()) and all(self.posmono(m) for m in d.t):
            return 1
        if d.t and all(c < 0 for c in d.t.values()) and all(self.posmono(m) for m in d.t):
            return -1
        return None

    def posmono(self, m):
        return all(tn.is_pos_factor(tn._BYID[x], e, i) for x, i, e in m) and not any(i < 0 for _, idx, _ in m for i in idx)

    def nonneg(self, p):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            return c > 0 and all(tn.is_pos_factor(tn._BYID[x], e, i) or (tn._BYID[x].kind == "fn" and tn._BYID[x].name in ("arccos", "arccosh")) for x, i, e in m)
        return False

    def t_ite(self, t):
        c = self.tv(t.args[0])
        if not isinstance(c, Bool) or c.v is None:
            try:
                a, b = self.arr(t.args[1]), self.arr(t.args[2])
            except TNError:
                raise TNError("undecided condition")
            if isinstance(a, TV) and isinstance(b, TV) and a.axes == b.axes and self.ctx.iszero(tn.sub(a.p, b.p)):
                return a
            raise TNError("undecided condition")
        return self.tv(t.args[1] if c.v else t.args[2])

    # -- structure

    def t_tuple(self, t):
        return tuple(self.tv(x) for x in t.args)

    def t_list(self, t):
        return [self.tv(x) for x in t.args]

    def t_attr(self, t):
        base, name = t.args
        if name in ("shape",):
            return Dims(self.arr(base).axes)
        if name == "ndim":
            return tconst(self.arr(base).r)
        if name == "size":
            r = ONE
            for d in self.arr(base).axes:
                r = tn.mul(r, d)
            return TV((), r)
        if name == "T":
            v = self.arr(base)
            if isinstance(v, Blk):
                return tT(v)
            return perm(v, list(range(v.r))[::-1])
        if name == "real":
            return treal(self.a(base))
        if name == "imag":
            v = self.a(base)
            return TV(v.axes, tn.imag(v.p), "f")
        if name == "eps":
            return TV((), tn.from_atom(tn.TINY)) if self.tiny else TV((), ZERO)
        raise TNError("attribute " + name)

    def t_select(self, t):
        base, i = t.args
        if base.op == "npcall" and base.args[0] in FACTORS or base.op == "ext" and base.args[0] in FACTORS_EXT:
            return self.factor(base, i)
        v = self.tv(base)
        if isinstance(v, (tuple, list)) and i.op == "const":
            return v[i.args[0]]
        if isinstance(v, Dims) and i.op == "const":
            return TV((), v[i.args[0]])
        if isinstance(v, TV) and v.r >= 1:
            if is1(v.axes[0]):
                if i.op == "const" and i.args[0] not in (0, -1):
                    raise TNError("index out of range")
                return drop_axis(v, 0)
            return self.pick(v, 0, i)
        raise TNError("select")

    def pick(self, v, axis, i):
        """Entry along an axis: contraction with a unit vector."""
        e = self.model.unit(i, v.axes[axis])
        ls = [("k" if q == axis else q) for q in range(v.r)]
        out = [q for q in range(v.r) if q != axis]
        p = tn.einsum([(v.p, ls), (e, ["k"])], out, {"k": v.axes[axis]})
        return TV([v.axes[q] for q in out], p, v.dt)

    def t_getitem(self, t):
        base, idx = t.args
        v = self.tv(base)
        if isinstance(v, Dims):
            return self.dims_slice(v, idx)
        items = list(idx.args) if idx.op == "tuple" else [idx]
        return self.index(v, items)

    def t_slice(self, t):
        base, lo, hi, step = t.args
        v = self.tv(base)
        so = mk("slice_obj", lo, hi, step)
        if isinstance(v, Dims):
            return self.dims_slice(v, so)
        return self.index(v, [so])

    def dims_slice(self, v, idx):
        if idx.op == "slice_obj":
            return Dims(tuple(v)[slice(*[x.args[0] for x in idx.args])])
        raise TNError("shape index")

    def index(self, v, items):
        isnew = lambda x: (x.op == "const" and x.args[0] is None) or (x.op == "extname" and x.args[0] == "numpy.newaxis")
        isell = lambda x: x.op == "const" and x.args[0] is Ellipsis
        if len(items) == 1 and not isnew(items[0]) and not isell(items[0]) and items[0].op not in ("slice_obj", "const"):
            b = None
            try:
                b = self.tv(items[0])
            except TNError:
                pass
            if isinstance(b, Bool):
                if b.v is True:
                    return v
                raise TNError("masked selection")
            if isinstance(b, TV) and b.r == 0:
                return self.pick(v, 0, items[0])
            raise TNError("fancy index")
        n = sum(1 for x in items if not isnew(x) and not isell(x))
        rank = v.r
        if any(isell(x) for x in items):
            k = [isell(x) for x in items].index(True)
            full = mk("slice_obj", const(None), const(None), const(None))
            items = items[:k] + [full] * (rank - n) + items[k + 1:]
        else:
            full = mk("slice_obj", const(None), const(None), const(None))
            items = items + [full] * (rank - n)
        ax = 0
        for x in items:
            if isnew(x):
                if isinstance(v, Blk):
                    raise TNError("block newaxis")
                v = new_axis(v, ax)
                ax += 1
            elif x.op == "slice_obj":
                v = self.slice_axis(v, ax, x)
                ax += 1
            elif x.op == "const" and isinstance(x.args[0], int):
                if isinstance(v, Blk):
                    raise TNError("block entry")
                if is1(v.axes[ax]):
                    if x.args[0] not in (0, -1):
                        raise TNError("index out of range")
                    v = drop_axis(v, ax)
                else:
                    v = self.pick(v, ax, x)
            else:
                s = self.tv(x)
                if isinstance(s, TV) and s.r == 0:
                    v = self.pick(v, ax, x)
                else:
                    raise TNError("index " + x.op)
        return v

    def slice_axis(self, v, ax, s):
        lo, hi, step = s.args
        none = lambda x: x.op == "const" and x.args[0] is None
        if none(step) or (step.op == "const" and step.args[0] == 1):
            if (none(lo) or lo is const(0)) and none(hi):
                return v
            l = ZERO if none(lo) else self.dimof(lo)
            h = v.axes[ax] if none(hi) else self.dimof(hi)
            if l == ZERO and h == v.axes[ax]:
                return v
            if isinstance(v, Blk):
                which = ax - len(v.batch)
                dims = v.rows if which == 0 else v.cols
                acc = ZERO
                cut = []
                for d in dims:
                    cut.append((acc, tn.add(acc, d)))
                    acc = tn.add(acc, d)
                st = [i for i, (a, b) in enumerate(cut) if a == l]
                en = [i for i, (a, b) in enumerate(cut) if b == h]
                if st and en:
                    a, b = st[0], en[0] + 1
                    if which == 0:
                        return unblk(Blk(v.rows[a:b], v.cols, v.g[a:b]))
                    return unblk(Blk(v.rows, v.cols[a:b], [r[a:b] for r in v.g]))
            raise TNError("partial slice")
        if none(lo) and none(hi) and step.op == "const" and step.args[0] == -1:
            if isinstance(v, Blk):
                raise TNError("reversed block")
            d = v.axes[ax]
            if is1(d):
                return v
            R = tn.from_atom(tn.atom("sym", "flip", (), (d, d), ("symm",)))
            ls = [("k" if q == ax else q) for q in range(v.r)]
            return TV(v.axes, tn.einsum([(v.p, ls), (R, ["k", ax])], list(range(v.r)), {"k": d}), v.dt)
        raise TNError("slice step")

    def t_setitem(self, t):
        base, idx, val = t.args
        if idx.op in ("lt", "le") and val.op == "const" and val in idx.args and base in idx.args and not isinstance(val.args[0], bool):
            # clipping assignment
            return self.bound([base, val], "min" if idx.args[0] is val else "max")
        if idx.op == "tuple":
            return self.structured_store(base, list(idx.args), val)
        b = self.tv(idx)
        if isinstance(b, Bool) and b.v is not None:
            if b.v is False:
                return self.tv(base)
            w = self.a(base)
            x = self.stored(self.a(val), w)
            s = bshape(w.axes, x.axes)
            return TV(s, lift(x, len(s)), w.dt)
        raise TNError("masked assignment")

    def stored(self, x, into):
        """Values assigned into an array take its dtype."""
        if into.dt != "c" and x.dt == "c":
            return TV(x.axes, tn.real(x.p), into.dt)
        return x

    def structured_store(self, base, items, val):
        """Assignment to a diagonal or a triangle of a (stacked) matrix, or a column exchange."""
        w = self.a(base)
        full = lambda x: x.op == "slice_obj" and all(y.op == "const" and y.args[0] is None for y in x.args)
        if w.r < 2:
            raise TNError("assignment")
        d = w.axes[-1]
        last = [x for x in items]
        if len(last) >= 1 and last[-1].op == "star" and all(full(x) for x in last[:-1]) and len(last) == w.r - 1:
            ti = last[-1].args[0]
            if ti.op == "npcall" and ti.args[0] in ("triu_indices", "tril_indices"):
                off = ti.args[1][1].args[0] if len(ti.args[1]) > 1 else dict(ti.args[2]).get("k", const(0)).args[0]
                if self.dimof(ti.args[1][0]) != d or w.axes[-2] != d:
                    raise TNError("triangle of another size")
                if (off > 0) == (ti.args[0] == "triu_indices") and off and not self.ctx.simp(w.p).t:
                    # fresh entries on a strict triangle of a zero matrix
                    x = self.a(val)
                    if x.r == w.r - 1 and x.axes[:-1] == w.axes[:-2] and self.fresh_draw(x):
                        key = ("tri", ti.args[0], val)
                        r = self.randoms.get(key)
                        if r is None:
                            r = self.randoms[key] = symv("tri%d" % len(self.randoms), w.axes, w.dt)
                            (mono, _), = r.p.t.items()
                            ta, ti_ = tn._BYID[mono[0][0]], mono[0][1]
                            nb = len(ti_) - 2
                            b = tuple(range(nb))
                            self.ctx.add([(ta, b + (nb, nb), 1)], ZERO, "strict triangle")
                            self.ctx.add([(ta, b + (nb, nb + 1), 1), (ta, b + (nb + 1, nb), 1)], ZERO, "strict triangle")
                            self.ctx.add([(ta, b + (-1, -2), 1), (ta, b + (-2, -1), 1)], ZERO, "strict triangle")
                        return r
        if len(items) == w.r and all(full(x) for x in items[:-2]) and items[-1] == items[-2]:
            ix = items[-1]
            if ix.op == "range" and ix.args[0] is const(0) and ix.args[2] is const(1) and self.dimof(ix.args[1]) == d and w.axes[-2] == d:
                dl = TV((d, d), tn.from_atom(tn.delta(d), (0, 1)))
                x = self.stored(self.a(val), w)
                return tadd(tsub(w, tmul(w, dl)), tmul(new_axis(x, x.r), dl))
        q = self.column_exchange(base, w, items, val)
        if q is not None:
            return q
        raise TNError("assignment")

    def column_exchange(self, base, w, items, val):
        """Columns a of the slices with determinant of one sign replaced by columns b."""
        full = lambda x: x.op == "slice_obj" and all(y.op == "const" and y.args[0] is None for y in x.args)
        cols = lambda x: [y.args[0] for y in x.args] if x.op in ("list", "tuple") and all(y.op == "const" and isinstance(y.args[0], int) for y in x.args) else None
        if len(items) != 3 or w.r != 3 or w.dt == "c" or not full(items[1]) or val.op != "getitem" or val.args[0] is not base:
            return None
        vi = val.args[1]
        vi = list(vi.args) if vi.op == "tuple" else [vi]
        a = cols(items[2])
        if a is None or len(vi) != 3 or vi[0] is not items[0] or not full(vi[1]) or cols(vi[2]) is None:
            return None
        b = cols(vi[2])
        if len(a) != len(b) or len(set(a)) != len(a) or any(x < 0 for x in a + b) or max(a + b) > 1:
            return None
        sel = items[0]
        while sel.op == "npcall" and sel.args[0] == "expand_dims":
            sel = sel.args[1][0]
        if not (sel.op == "select" and sel.args[1] is const(0)):
            return None
        sel = sel.args[0]
        if not (sel.op == "npcall" and sel.args[0] in ("where", "nonzero") and len(sel.args[1]) == 1):
            return None
        cond = sel.args[1][0]
        if cond.op not in ("lt", "le"):
            return None
        isdet = lambda x: x.op == "npcall" and x.args[0] == "linalg.det" and x.args[1][0] is base
        l, r = cond.args
        zero = lambda x: x.op == "const" and x.args[0] == 0 and not isinstance(x.args[0], bool)
        if isdet(l) and zero(r):
            neg = True
        elif isdet(r) and zero(l):
            neg = False
        else:
            return None
        one = is1(w.axes[0])
        w2 = drop_axis(w, 0) if one else w
        lb = [] if one else ["b"]
        g = tn.einsum([(w2.p, lb + ["i", "p"]), (w2.p, lb + ["i", "q"])], lb + ["p", "q"])
        eye = tn.relabel(tn.from_atom(tn.delta(w.axes[-1])), {0: w2.r - 2, 1: w2.r - 1})
        if self.ctx.simp(tn.sub(g, eye)).t:
            return None
        mp = dict(zip(a, b))
        odd = mp == {0: 1, 1: 0}
        even = all(x == y for x, y in mp.items())
        if even:
            return w
        name = ("swapP" if neg else "swapN") if odd else "columns%s" % sorted(mp.items())
        out = TV(w2.axes, tn.from_atom(tn.atom("mat", name, (self.ctx.simp(w2.p),), w2.axes, ())), w.dt)
        return new_axis(out, 0) if one else out

    def fresh_draw(self, x):
        return len(x.p.t) == 1 and any(v is x or v.p == x.p for v in self.randoms.values())

    t_store = t_setitem

    # -- calls

    def t_mcall(self, t):
        name, base, args, kw = t.args
        kw = self.kwargs(kw)
        if name in ("conj", "conjugate"):
            return tconj(self.arr(base))
        if name in ("copy", "view", "squeeze_", "item", "flatten_"):
            return self.arr(base)
        if name == "astype":
            x = self.arr(base)
            dt = self.dtype_of(args[0] if args else kw.get("dtype"))
            if dt == x.dt or not isinstance(x, TV):
                return x
            if dt == "c":
                return TV(x.axes, x.p, dt)
            if dt == "f" and x.dt == "c":
                return TV(x.axes, tn.real(x.p), dt)
            if dt == "f":
                return TV(x.axes, x.p, dt)
            raise TNError("conversion")
        if name == "sum":
            return self.np_sum((base,) + tuple(args), kw)
        if name == "mean":
            return self.np_mean((base,) + tuple(args), kw)
        if name == "trace":
            return self.np_trace((base,) + tuple(args), kw)
        if name == "dot":
            return self.np_dot((base,) + tuple(args), kw)
        if name == "reshape":
            return self.np_reshape((base, args[0] if len(args) == 1 else mk("tuple", *args)), kw)
        if name == "transpose":
            if len(args) > 1:
                args = (mk("tuple", *args),)
            return self.np_transpose((base,) + tuple(args), kw)
        if name in ("swapaxes", "squeeze", "ravel", "flatten", "diagonal", "clip"):
            return getattr(self, "np_" + name)((base,) + tuple(args), kw)
        raise TNError("method " + name)

    def t_npcall(self, t):
        name, args, kw = t.args
        if name in FACTORS:
            return self.factor_all(t)
        if name.startswith(("scipy.", "math.")):
            return self.tv(mk("ext", name, args, kw))
        f = getattr(self, "np_" + name.replace(".", "_"), None)
        if f is None:
            if name in ELEM:
                a = self.a(args[0], raw=True)
                return self.elem(ELEM[name], a)
            raise TNError("numpy." + name)
        return f(args, self.kwargs(kw))

    def t_min2(self, t):
        return self.minmax(t, "min")

    def t_max2(self, t):
        return self.minmax(t, "max")

    def minmax(self, t, kind):
        args = list(t.args)
        return self.bound(args, kind)

    def bound(self, args, kind):
        vs = [self.a(x, raw=True) for x in args]
        cs = [v.p.const() for v in vs]
        if len(vs) == 2:
            for i in (0, 1):
                if cs[i] is not None and cs[1 - i] is None:
                    x = vs[1 - i]
                    note = dict(x.note or {})
                    key = "hi" if kind == "min" else "lo"
                    old = note.get(key)
                    c = cs[i]
                    note[key] = c if old is None else (min(old, c) if kind == "min" else max(old, c))
                    if note.get("raw") is None:
                        note["raw"] = x
                    return TV(bshape(vs[0].axes, vs[1].axes), x.p if x.r == len(bshape(vs[0].axes, vs[1].axes)) else lift(x, vs[i].r), x.dt, note)
                if cs[0] is not None and cs[1] is not None:
                    return tconst(min(cs) if kind == "min" else max(cs))
            d = self.ctx.simp(tn.sub(vs[0].p, vs[1].p))
            sg = self.sign(d)
            if sg is not None:
                big, small = (vs[0], vs[1]) if sg > 0 else (vs[1], vs[0])
                return small if kind == "min" else big
        raise TNError(kind)

    NATURAL = {"arccos": (-1, 1), "arcsin": (-1, 1), "arccosh": (1, None), "sqrt": (0, None), "arctanh": (-1, 1), "log": (0, None)}

    def elem(self, name, a):
        a = self.natural(a, name)
        if name == "sqrt":
            return TV(a.axes, tn.power(a.p, Fraction(1, 2)), a.dt)
        if name == "abs":
            if a.dt == "c":
                return TV(a.axes, tn.power(tn.mul(tn.conj(a.p), a.p), Fraction(1, 2)), "f")
            return TV(a.axes, tn.power(tn.mul(a.p, a.p), Fraction(1, 2)), "f")
        if name == "sinc":
            # numpy: sin(pi x)/(pi x)
            y = tn.mul(a.p, tn.num(3.141592653589793))
            y = self.ctx.simp(y)
            if not y.t:
                return TV(a.axes, ONE, a.dt)
            return TV(a.axes, tn.mul(tn.fn("sin", y), tn.power(y, -1)), a.dt)
        if name == "square":
            return tmul(a, a)
        if name == "exp2" or name == "log2" or name == "log10":
            raise TNError(name)
        return TV(a.axes, tn.fn(name, a.p), a.dt)

    def natural(self, a, name):
        """A clipped value used where the clip is the natural range."""
        if not a.note:
            return a
        lo, hi = self.NATURAL.get(name, (None, None))
        n = a.note
        ok = True
        if "lo" in n and (lo is None or n["lo"] > lo) and not (n["lo"] <= 0 and self.nonneg(a.p)):
            ok = False
        if "hi" in n and (hi is None or n["hi"] < hi):
            ok = False
        if ok:
            return TV(a.axes, a.p, a.dt)
        return self.forced(a)

    def forced(self, a):
        n = a.note
        at, order = tn._compact("fn", "clip[%s,%s]" % (n.get("lo"), n.get("hi")), a.p)
        return TV(a.axes, tn.from_atom(at, order), a.dt)

    def np_sqrt(self, args, kw):
        return self.elem("sqrt", self.a(args[0], raw=True))

    def np_clip(self, args, kw):
        v = self.bound([args[0], args[1]], "max") if not (args[1].op == "const" and args[1].args[0] is None) else self.a(args[0], raw=True)
        if len(args) > 2 and not (args[2].op == "const" and args[2].args[0] is None):
            c = self.a(args[2]).p.const()
            if c is None:
                raise TNError("clip")
            note = dict(v.note or {})
            note["hi"] = min(note.get("hi", c), c)
            v = TV(v.axes, v.p, v.dt, note)
        return v

    def np_minimum(self, args, kw):
        return self.bound(list(args), "min")

    def np_maximum(self, args, kw):
        return self.bound(list(args), "max")

    np_min2 = np_minimum
    np_max2 = np_maximum

    def np_where(self, args, kw):
        if len(args) != 3:
            raise TNError("where")
        i = args[0]
        if i.op in ("lt", "le") and {args[1], args[2]} == set(i.args) and any(x.op == "const" for x in i.args):
            # where(x < c, x, c) is a minimum
            return self.bound(list(i.args), "min" if args[1] is i.args[0] else "max")
        c = self.tv(args[0])
        if not isinstance(c, Bool) or c.v is None:
            raise TNError("where: undecided mask")
        x, o = self.a(args[1] if c.v else args[2]), None
        try:
            o = self.a(args[2] if c.v else args[1])
        except DivZero:
            return x
        s = bshape(x.axes, o.axes)
        return TV(s, lift(x, len(s)), dtj(x, o))

    def np_sum(self, args, kw):
        v = self.tv(args[0])
        if isinstance(v, (list, tuple)) and not isinstance(v, Dims):
            acc = None
            for x in v:
                y = tsum(x)
                acc = y if acc is None else tadd(acc, y)
            return acc if acc is not None else tconst(0)
        if isinstance(v, Blk):
            raise TNError("sum of a block matrix")
        ax = args[1] if len(args) > 1 else kw.get("axis")
        keep = kw.get("keepdims")
        keep = keep is not None and keep.op == "const" and bool(keep.args[0])
        return tsum(v, self.axes_of(ax), keep)

    def np_mean(self, args, kw):
        if set(kw) - {"axis", "keepdims"} or len(args) > 2:
            raise TNError("mean")
        v = self.tv(args[0])
        if isinstance(v, Blk):
            raise TNError("mean of a block matrix")
        n = tconst(1)
        if isinstance(v, (list, tuple)) and not isinstance(v, Dims):
            if any(x.r for x in v):
                raise TNError("mean")
            n = tconst(len(v))
        else:
            if isinstance(v, Dims):
                raise TNError("mean")
            axes = self.axes_of(args[1] if len(args) > 1 else kw.get("axis"))
            for k in range(v.r) if axes is None else axes:
                n = tmul(n, TV((), v.axes[k]))
        s = self.np_sum(args, kw)
        return tmul(s, tpow(n, -1))

    def axes_of(self, ax):
        if ax is None or (ax.op == "const" and ax.args[0] is None):
            return None
        if ax.op == "const" and isinstance(ax.args[0], int):
            return [ax.args[0]]
        if ax.op == "const" and isinstance(ax.args[0], tuple):
            return list(ax.args[0])
        if ax.op in ("tuple", "list") and all(x.op == "const" for x in ax.args):
            return [x.args[0] for x in ax.args]
        v = self.tv(ax)
        if isinstance(v, TV) and v.r == 0 and v.p.const() is not None:
            return [int(v.p.const())]
        raise TNError("axis")

    def np_prod(self, args, kw):
        v = self.tv(args[0])
        if isinstance(v, Dims):
            v = [TV((), d) for d in v]
        if isinstance(v, (tuple, list)):
            acc = tconst(1)
            for x in v:
                acc = tmul(acc, x)
            return acc
        raise TNError("prod")

    def np_abs(self, args, kw):
        return self.elem("abs", self.a(args[0]))

    np_absolute = np_abs

    def np_real(self, args, kw):
        return treal(self.a(args[0]))

    def np_imag(self, args, kw):
        v = self.a(args[0])
        return TV(v.axes, tn.imag(v.p), "f")

    def np_float(self, args, kw):
        v = self.a(args[0])
        if v.r and not all(is1(x) for x in v.axes):
            raise TNError("float of an array")
        return TV((), v.p if not v.r else v.p, v.dt)

    def np_int(self, args, kw):
        return self.integral(self.a(args[0]))

    def np_conj(self, args, kw):
        return tconj(self.arr(args[0]))

    np_conjugate = np_conj

    @staticmethod
    def unraveled(t):
        """The array that t lists entry by entry, or None."""
        if not isinstance(t, Term):
            return None
        if t.op == "mcall" and t.args[0] in ("ravel", "flatten") and not t.args[2] and not t.args[3]:
            return t.args[1]
        if t.op == "npcall" and t.args[0] in ("ravel", "flatten") and len(t.args[1]) == 1 and not t.args[2]:
            return t.args[1][0]
        if t.op == "mcall" and t.args[0] == "reshape" and len(t.args[2]) == 1 and t.args[2][0] is const(-1) and not t.args[3]:
            return t.args[1]
        return None

    def raveled_dot(self, x, y):
        """Product of two arrays summed over all entries, if both are listed entry by entry."""
        u, v = self.unraveled(x), self.unraveled(y)
        if u is None or v is None:
            return None
        a, b = self.a(u), self.a(v)
        return tsum(tmul(a, b)) if a.axes == b.axes and a.r > 1 else None

    def np_dot(self, args, kw):
        r = self.raveled_dot(args[0], args[1])
        if r is not None:
            return r
        a, b = self.a(args[0]), self.a(args[1])
        if a.r == 0 or b.r == 0:
            return tmul(a, b)
        if a.r <= 2 and b.r <= 2:
            return tmm(a, b)
        raise TNError("dot")

    def np_vdot(self, args, kw):
        if self.unraveled(args[0]) is not None and self.unraveled(args[1]) is not None:
            args = [self.unraveled(args[0]), self.unraveled(args[1])]
        a, b = self.a(args[0]), self.a(args[1])
        if a.axes != b.axes:
            raise TNError("vdot")
        return tsum(tmul(tconj(a), b))

    def np_inner(self, args, kw):
        r = self.raveled_dot(args[0], args[1])
        if r is not None:
            return r
        a, b = self.a(args[0]), self.a(args[1])
        if a.r == 1 and b.r == 1:
            return tsum(tmul(a, b))
        raise TNError("inner")

    def np_outer(self, args, kw):
        a, b = self.a(args[0]), self.a(args[1])
        if a.r == 1 and b.r == 1:
            return tmul(new_axis(a, 1), new_axis(b, 0))
        raise TNError("outer")

    def np_tensordot(self, args, kw):
        a, b = self.a(args[0]), self.a(args[1])
        ax = args[2] if len(args) > 2 else kw.get("axes")
        if ax is None:
            n = 2
        elif ax.op in ("tuple", "list", "const") and not (ax.op == "const" and isinstance(ax.args[0], int)):
            pair = list(ax.args) if ax.op != "const" else [const(x) for x in ax.args[0]]
            la, lb = self.axes_of(pair[0]), self.axes_of(pair[1])
            return self.contract(a, b, [x % a.r for x in la], [x % b.r for x in lb])
        else:
            n = self.axes_of(ax)[0]
        if a.r < n or b.r < n:
            raise TNError("tensordot rank")
        return self.contract(a, b, list(range(a.r - n, a.r)), list(range(n)))

    def contract(self, a, b, la, lb):
        for x, y in zip(la, lb):
            if a.axes[x] != b.axes[y]:
                raise TNError("tensordot dims")
        A = ["a%d" % k for k in range(a.r)]
        B = ["b%d" % k for k in range(b.r)]
        dims = {}
        for n, (x, y) in enumerate(zip(la, lb)):
            A[x] = B[y] = "c%d" % n
            dims["c%d" % n] = a.axes[x]
        oa = [k for k in range(a.r) if k not in la]
        ob = [k for k in range(b.r) if k not in lb]
        p = tn.einsum([(a.p, A), (b.p, B)], [A[k] for k in oa] + [B[k] for k in ob], dims)
        return TV([a.axes[k] for k in oa] + [b.axes[k] for k in ob], p, dtj(a, b))

    def np_einsum(self, args, kw):
        spec = args[0]
        if spec.op != "const":
            raise TNError("einsum")
        s = spec.args[0].replace(" ", "")
        if "..." in s:
            ops = [self.a(x) for x in args[1:]]
            ins = s.split("->")[0].split(",")
            nb = max(o.r - len(i.replace("...", "")) if "..." in i else 0 for o, i in zip(ops, ins))
            full = "ABCDEFG"[:nb]
            ins = [i.replace("...", full[nb - (o.r - len(i.replace("...", ""))):] if "..." in i else "") for o, i in zip(ops, ins)]
            out = s.split("->")[1].replace("...", full) if "->" in s else None
        else:
            ops = [self.a(x) for x in args[1:]]
            ins = s.split("->")[0].split(",")
            out = s.split("->")[1] if "->" in s else None
        if out is None:
            cnt = "".join(ins)
            out = "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
        dims = {}
        for o, i in zip(ops, ins):
            if o.r != len(i):
                raise TNError("einsum rank")
            for c, d in zip(i, o.axes):
                if c in dims and dims[c] != d:
                    if is1(dims[c]):
                        dims[c] = d
                    elif not is1(d):
                        raise TNError("einsum dims")
                dims.setdefault(c, d)
        p = None
        acc = ops[0].p
        # repeated labels inside one operand are handled by the generic product
        p = tn.einsum([(o.p, list(i)) for o, i in zip(ops, ins)], list(out), dims)
        return TV([dims[c] for c in out], p, dtj(*ops))

    def np_trace(self, args, kw):
        v = self.arr(args[0])
        a1 = kw.get("axis1")
        a2 = kw.get("axis2")
        x = a1.args[0] if a1 is not None else 0
        y = a2.args[0] if a2 is not None else 1
        if isinstance(v, Blk):
            raise TNError("block trace")
        x, y = x % v.r, y % v.r
        ls = [("t" if k in (x, y) else k) for k in range(v.r)]
        out = [k for k in range(v.r) if k not in (x, y)]
        return TV([v.axes[k] for k in out], tn.einsum([(v.p, ls)], out, {"t": v.axes[x]}), v.dt)

    def np_diagonal(self, args, kw):
        v = self.a(args[0])
        a1 = kw.get("axis1") or (args[2] if len(args) > 2 else None)
        a2 = kw.get("axis2") or (args[3] if len(args) > 3 else None)
        x = (a1.args[0] if a1 is not None else 0) % v.r
        y = (a2.args[0] if a2 is not None else 1) % v.r
        ls = [("t" if k in (x, y) else k) for k in range(v.r)]
        out = [k for k in range(v.r) if k not in (x, y)]
        return TV([v.axes[k] for k in out] + [v.axes[x]], tn.einsum([(v.p, ls)], out + ["t"]), v.dt)

    def np_diag(self, args, kw):
        v = self.a(args[0])
        if v.r == 1:
            d = v.axes[0]
            if is1(d):
                return new_axis(v, 0)
            return TV((d, d), tn.einsum([(v.p, ["i"]), (tn.eye(d), ["i", "j"])], ["i", "j"]), v.dt)
        if v.r == 2:
            return self.np_diagonal(args, kw)
        raise TNError("diag")

    def np_transpose(self, args, kw):
        v = self.arr(args[0])
        ax = args[1] if len(args) > 1 else kw.get("axes")
        if isinstance(v, Blk):
            if ax is None and v.r == 2:
                return tT(v)
            order = self.axes_of(ax)
            if [x % v.r for x in order] == list(range(v.r - 2)) + [v.r - 1, v.r - 2]:
                return tT(v)
            raise TNError("block transpose")
        order = list(range(v.r))[::-1] if ax is None else [x % v.r for x in self.axes_of(ax)]
        return perm(v, order)

    def np_swapaxes(self, args, kw):
        b = self.arr(args[0])
        if isinstance(b, Blk) and {args[1].args[0] % b.r, args[2].args[0] % b.r} == {b.r - 2, b.r - 1}:
            return tT(b)
        v = self.a(args[0])
        i, j = args[1].args[0] % v.r, args[2].args[0] % v.r
        o = list(range(v.r))
        o[i], o[j] = o[j], o[i]
        return perm(v, o)

    def np_matrix_transpose(self, args, kw):
        return tT(self.arr(args[0]))

    np_linalg_matrix_transpose = np_matrix_transpose

    def np_expand_dims(self, args, kw):
        v = self.a(args[0])
        ax = self.axes_of(args[1] if len(args) > 1 else kw["axis"])
        r = v.r + len(ax)
        for k in sorted(x % r for x in ax):
            v = new_axis(v, k)
        return v

    def np_squeeze(self, args, kw):
        v = self.a(args[0])
        ax = self.axes_of(args[1] if len(args) > 1 else kw.get("axis"))
        ks = [k for k in range(v.r) if is1(v.axes[k])] if ax is None else [x % v.r for x in ax]
        for k in sorted(ks, reverse=True):
            v = drop_axis(v, k)
        return v

    def np_reshape(self, args, kw):
        v = self.a(args[0])
        shp = args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape"))
        tgt = list(self.shape_of(shp))
        minus = [k for k, d in enumerate(tgt) if d.const() == -1]
        src = [d for d in v.axes if not is1(d)]
        if minus:
            rest = [d for k, d in enumerate(tgt) if k not in minus and not is1(d)]
            left = list(src)
            for d in rest:
                if d in left:
                    left.remove(d)
            if len(left) == 0:
                tgt[minus[0]] = ONE
            elif len(left) == 1:
                tgt[minus[0]] = left[0]
            else:
                raise TNError("reshape")
        if [d for d in tgt if not is1(d)] != src:
            raise TNError("reshape")
        for k in range(v.r - 1, -1, -1):
            if is1(v.axes[k]):
                v = drop_axis(v, k)
        for k, d in enumerate(tgt):
            if is1(d):
                v = new_axis(v, k)
        return v

    def np_ravel(self, args, kw):
        v = self.a(args[0])
        if len([d for d in v.axes if not is1(d)]) <= 1:
            for k in range(v.r - 1, -1, -1):
                if is1(v.axes[k]) and v.r > 1:
                    v = drop_axis(v, k)
            return v
        raise TNError("ravel")

    np_flatten = np_ravel

    def np_tile(self, args, kw):
        v = self.a(args[0])
        reps = list(self.shape_of(args[1]))
        n = max(len(reps), v.r)
        reps = [ONE] * (n - len(reps)) + reps
        axes = (ONE,) * (n - v.r) + v.axes
        p = lift(v, n)
        out = []
        for d, q in zip(axes, reps):
            if is1(q):
                out.append(d)
            elif is1(d):
                out.append(q)
            else:
                raise TNError("tile")
        return TV(out, p, v.dt)

    def np_broadcast_to(self, args, kw):
        v = self.a(args[0])
        s = self.shape_of(args[1])
        s = bshape(v.axes, s)
        return TV(s, lift(v, len(s)), v.dt)

    def np_array(self, args, kw):
        v = self.tv(args[0])
        if isinstance(v, (TV, Blk)):
            return v
        if isinstance(v, (list, tuple)):
            return v
        raise TNError("array")

    np_asarray = np_array
    np_array_ = np_array

    def np_stack(self, args, kw):
        v = self.tv(args[0])
        if isinstance(v, list) and len(v) == 1 and not kw and len(args) == 1:
            return new_axis(v[0], 0)
        raise TNError("stack")

    # -- constructors

    def dtype_of(self, t):
        if t is None:
            return "f"
        if t.op == "attr" and t.args[1] == "dtype":
            return self.arr(t.args[0]).dt
        if t.op == "extname":
            if t.args[0].split(".")[-1].startswith(("int", "bool", "uint")):
                raise TNError("integer array")
            return "c" if "complex" in t.args[0] else "f"
        if t.op == "const" and isinstance(t.args[0], str):
            return "c" if "complex" in t.args[0] else "f"
        if "complex" in repr(t):
            return "c"
        return "f"

    def np_zeros(self, args, kw):
        dt = args[1] if len(args) > 1 else kw.get("dtype")
        return TV(self.shape_of(args[0] if args else kw["shape"]), ZERO, self.dtype_of(dt))

    def np_ones(self, args, kw):
        dt = args[1] if len(args) > 1 else kw.get("dtype")
        return TV(self.shape_of(args[0] if args else kw["shape"]), ONE, self.dtype_of(dt))

    def np_full(self, args, kw):
        s = self.shape_of(args[0])
        v = self.a(args[1])
        return TV(bshape(s, v.axes), lift(v, len(s)), v.dt)

    def np_zeros_like(self, args, kw):
        v = self.arr(args[0])
        return TV(v.axes, ZERO, self.dtype_of(kw["dtype"]) if "dtype" in kw else v.dt)

    def np_ones_like(self, args, kw):
        v = self.arr(args[0])
        return TV(v.axes, ONE, v.dt)

    def np_eye(self, args, kw):
        d = self.dimof(args[0])
        if is1(d):
            return TV((ONE, ONE), ONE)
        return TV((d, d), tn.eye(d))

    np_identity = np_eye

    def np_block(self, args, kw):
        rows = self.tv(args[0])
        if not isinstance(rows, list):
            raise TNError("block")
        if rows and not isinstance(rows[0], list):
            rows = [rows]
        return self.mkblk(rows)

    def mkblk(self, rows):
        flat = []
        for r in rows:
            line = None
            for v in r:
                if isinstance(v, TV):
                    if v.r < 2:
                        raise TNError("block entry rank")
                    v = Blk([v.axes[-2]], [v.axes[-1]], [[v]])
                if line is None:
                    line = v
                else:
                    if line.rows != v.rows:
                        raise TNError("block rows")
                    line = Blk(line.rows, line.cols + v.cols, [a + b for a, b in zip(line.g, v.g)])
            flat.append(line)
        acc = flat[0]
        for l in flat[1:]:
            if acc.cols != l.cols:
                raise TNError("block columns")
            acc = Blk(acc.rows + l.rows, acc.cols, acc.g + l.g)
        return acc

    def np_hstack(self, args, kw):
        v = self.tv(args[0])
        return self.mkblk([list(v)])

    def np_vstack(self, args, kw):
        v = self.tv(args[0])
        return self.mkblk([[x] for x in v])

    def np_concatenate(self, args, kw):
        v = self.tv(args[0])
        ax = self.axes_of(args[1] if len(args) > 1 else kw.get("axis", const(0)))[0]
        r = v[0].r
        if ax % r == r - 1:
            return self.mkblk([list(v)])
        if ax % r == r - 2:
            return self.mkblk([[x] for x in v])
        raise TNError("concatenate")

    def np_linalg_norm(self, args, kw):
        v = self.arr(args[0])
        o = args[1] if len(args) > 1 else kw.get("ord")
        if o is not None and not (o.op == "const" and o.args[0] in (None, "fro", 2)):
            raise TNError("norm order")
        ax = args[2] if len(args) > 2 else kw.get("axis")
        axes = self.axes_of(ax)
        if o is not None and o.op == "const" and o.args[0] == 2:
            n = v.r if axes is None else len(axes)
            if n != 1:
                raise TNError("spectral norm")
        if isinstance(v, Blk):
            if axes is not None:
                raise TNError("block norm")
            q = fro2(v)
        else:
            keep = kw.get("keepdims")
            keep = keep is not None and keep.op == "const" and bool(keep.args[0])
            q = tsum(tmul(tconj(v), v), axes, keep)
        q = TV(q.axes, self.ctx.simp(q.p), "f")
        return tpow(q, Fraction(1, 2))

    def square(self, v):
        if v.r < 2 or v.axes[-1] != v.axes[-2]:
            raise TNError("square matrix expected")

    def np_linalg_inv(self, args, kw):
        return self.inv(self.a(args[0]))

    def inv(self, v):
        self.square(v)
        if is1(v.axes[-1]):
            return tpow(v, -1)
        p = self.ctx.simp(v.p)
        d = v.axes[-1]
        r = v.r
        c = _scalar_eye(p, r, d)
        if c is not None:
            return TV(v.axes, tn.mul(tn.power(c, -1), tn.from_atom(tn.delta(d), (r - 2, r - 1))), v.dt)
        return TV(v.axes, self.matfun("inv", v), v.dt)

    def matfun(self, name, v):
        """Matrix function atom in the frame of v (batch axes of length one are skipped)."""
        r = v.r
        p = self.ctx.simp(v.p)
        fd = tn.free_dims(p)
        keep = [k for k in range(r) if not is1(v.axes[k])]
        if r - 1 not in keep or r - 2 not in keep:
            raise TNError("matrix function of 1x1")
        # batch labels the value does not depend on are dropped
        keep = [k for k in keep if k >= r - 2 or k in fd]
        m = {k: n for n, k in enumerate(keep)}
        q = tn.relabel(p, {k: m[k] for k in fd}) if fd else p
        axes = tuple(v.axes[k] for k in keep)
        fl = ("c",) if v.dt == "c" else ()
        f = tn.matfn(name, (q,), axes, fl)
        ls = tn.free_dims(f)
        return tn.relabel(f, {n: k for n, k in enumerate(keep) if n in ls})

    def singular(self, put, q, nb, s):
        """Singular values; those of A and A^H are the same."""
        h = tn.relabel(tn.conj(q), {**{b: b for b in range(nb)}, nb: nb + 1, nb + 1: nb})
        return put("svdS", (s,), ("pos",), 1, "f", min(q, h, key=lambda x: x.key))

    def np_linalg_solve(self, args, kw):
        A, B = self.a(args[0]), self.a(args[1])
        I = self.inv(A)
        return tmm(I, B)

    def np_linalg_det(self, args, kw):
        return self.det(self.a(args[0]))

    def det(self, v):
        self.square(v)
        d = v.axes[-1]
        r = v.r
        p = self.ctx.simp(v.p)
        if is1(d):
            return drop_axis(drop_axis(v, r - 1), r - 2)
        if len(p.t) == 1:
            (mono, cf), = p.t.items()
            if cf == 1 and len(mono) == 1 and mono[0][2] == 1 and tn._BYID[mono[0][0]].name in ("swapP", "swapN"):
                # orthogonal, its determinant made one sign
                return TV(v.axes[:-2], ONE if tn._BYID[mono[0][0]].name == "swapP" else tn.neg(ONE), v.dt)
        c = _scalar_eye(p, r, d)
        if c is not None:
            if c == ONE:
                return TV(v.axes[:-2], ONE, v.dt)
            if any(k >= r - 2 for k in tn.free_dims(c)):
                raise TNError("det")
            return TV(v.axes[:-2], tn.fn("exp", tn.mul(d, tn.fn("log", c))), v.dt)
        # det(a b) with a scalar factor
        s, q = common_scalar(p, r)
        if s is not None:
            rest = self.det(TV(v.axes, q, v.dt))
            return TV(v.axes[:-2], tn.mul(tn.fn("exp", tn.mul(d, tn.fn("log", s))), rest.p), v.dt)
        keep = [k for k in range(r) if not is1(v.axes[k]) and (k >= r - 2 or k in tn.free_dims(p))]
        m = {k: n for n, k in enumerate(keep)}
        fd = tn.free_dims(p)
        q = tn.relabel(p, {k: m[k] for k in fd}) if fd else p
        fl = {"pos"} if self.model.posdet(v) else set()
        if v.dt == "c" and not fl:
            fl.add("c")
        f = tn.mat_unary("det", (q,), tuple(v.axes[k] for k in keep[:-2]), fl)
        ls = tn.free_dims(f)
        return TV(v.axes[:-2], tn.relabel(f, {n: k for n, k in enumerate(keep[:-2]) if n in ls}), v.dt)

    def np_linalg_matrix_rank(self, args, kw):
        v = self.arr(args[0])
        if isinstance(v, TV) and v.r == 2:
            # the rank of an idempotent matrix is its trace
            d = tn.sub(tn.einsum([(v.p, [0, "k"]), (v.p, ["k", 1])], [0, 1]), v.p)
            if not self.ctx.simp(d).t:
                return TV((), self.ctx.simp(tn.einsum([(v.p, ["k", "k"])], [])))
        return TV((), tn.dim("rank"))

    def np_linalg_matrix_power(self, args, kw):
        v = self.a(args[0])
        n = args[1].args[0]
        if isinstance(n, int) and 1 <= n <= 4:
            r = v
            for _ in range(n - 1):
                r = tmm(r, v)
            return r
        raise TNError("matrix_power")

    # -- factorisations

    def factor_all(self, t):
        name, args, kw = t.args
        k = dict(kw)
        if name == "linalg.svd":
            uv = k.get("compute_uv")
            if uv is not None and uv.op == "const" and not uv.args[0]:
                return self.factors(t)[1]
        if name == "linalg.qr":
            m = k.get("mode", args[1] if len(args) > 1 else None)
            if m is not None and m.op == "const" and m.args[0] == "r":
                return self.factors(t)[1]
        if name == "linalg.cholesky":
            return self.factors(t)[0]
        if name == "linalg.eigvalsh":
            return self.factors(t)[0]
        return tuple(self.factors(t))

    def factor(self, t, i):
        if i.op != "const":
            raise TNError("factor")
        v = self.factor_all(t)
        if isinstance(v, tuple):
            return v[i.args[0]]
        # indexing an array result
        if is1(v.axes[0]):
            return drop_axis(v, 0)
        return self.pick(v, 0, i)

    def factors(self, t):
        if t.op == "ext":
            name, args, kw = t.args[0], t.args[1], dict(t.args[2])
            name = {"scipy.linalg.svd": "linalg.svd", "scipy.linalg.qr": "linalg.qr", "scipy.linalg.eigh": "linalg.eigh"}.get(name, name)
        else:
            name, args, kw = t.args[0], t.args[1], dict(t.args[2])
        v = self.arr(args[0])
        if isinstance(v, Blk):
            raise TNError("factorisation of a block matrix")
        name = name.split(".")[-1]
        full = kw.get("full_matrices")
        if full is None and len(args) > 1 and name == "svd":
            full = args[1]
        full = not (full is not None and full.op == "const" and not full.args[0])
        return self.fact(name, v, full)

    def fact(self, name, v, full=False):
        r = v.r
        if r < 2:
            raise TNError(name + " of a vector")
        m, n = v.axes[-2:]
        p = self.ctx.simp(v.p)
        fd = tn.free_dims(p)
        keep = [k for k in range(r - 2) if not is1(v.axes[k]) and k in fd] + [r - 2, r - 1]
        if is1(m) and is1(n) and name == "qr" and self.ctx.simp(p).t:
            ab = tn.power(self.ctx.simp(tn.mul(tn.conj(p), p)), Fraction(1, 2))
            bt = tuple(v.axes[k] for k in keep[:-2])
            th = tn.atom("sym", ("phase", p.key.__hash__()), (), bt, ("c", "unit") if v.dt == "c" else ("unit",))
            thp = tn.from_atom(th, tuple(keep[:-2]))
            q = tn.mul(p, tn.power(ab, -1))
            return [TV(v.axes, self.ctx.simp(tn.mul(q, thp)), v.dt), TV(v.axes, self.ctx.simp(tn.mul(ab, tn.conj(thp))), v.dt)]
        if is1(m) or is1(n):
            raise TNError(name + " with a unit dimension")
        mp = {k: i for i, k in enumerate(keep)}
        q = tn.relabel(p, {k: mp[k] for k in fd}) if fd else p
        bt = tuple(v.axes[k] for k in keep[:-2])
        nb = len(bt)
        c = ("c",) if v.dt == "c" else ()
        batch = v.axes[:-2]

        def put(nm, dims, fl=(), rank=2, dt=None, arg=None):
            a = tn.atom("mat", nm, (q if arg is None else arg,), bt + tuple(dims), tuple(fl))
            idx = tuple(keep[:-2]) + ((r - 2, r - 1)[:rank])
            return TV(batch + tuple(dims), tn.from_atom(a, idx), dt or v.dt)

        if name == "qr":
            ge = self.model.compare_dims(m, n)
            if ge is None:
                raise TNError("qr dims")
            if ge < 0:
                raise TNError("wide qr")
            # C: factor with positive diagonal; theta: unit modulus
            hh = tn.einsum([(tn.conj(q), _bl(nb) + ["i", "a"]), (q, _bl(nb) + ["i", "b"])], _bl(nb) + ["a", "b"])
            hh = self.ctx.simp(hh)
            orth = hh == tn.from_atom(tn.delta(n), (nb, nb + 1))
            if orth:
                Q = TV(batch + (m, n), p, v.dt)
                R = TV(batch + (n, n), tn.from_atom(tn.delta(n), (r - 2, r - 1)), v.dt)
            else:
                Q = put("cqrQ", (m, n), c)
                R = put("cqrR", (n, n), c)
            th = tn.atom("sym", ("phase", q.key.__hash__()), (), bt + (n,), ("c", "unit") if c else ("unit",))
            idx = tuple(keep[:-2]) + (r - 1,)
            thp = tn.from_atom(th, idx)
            idx2 = tuple(keep[:-2]) + (r - 2,)
            thr = tn.conj(tn.from_atom(th, idx2))
            return [TV(Q.axes, tn.mul(Q.p, thp), v.dt), TV(R.axes, tn.mul(R.p, thr), v.dt)]
        if name == "svd":
            ge = self.model.compare_dims(m, n)
            if ge is None:
                raise TNError("svd dims")
            s = n if ge >= 0 else m
            dl = tn.from_atom(tn.delta(n), (nb, nb + 1)) if m == n else None
            if dl is not None and q == dl:
                one = TV(batch + (n, n), tn.from_atom(tn.delta(n), (r - 2, r - 1)), v.dt)
                return [one, TV(batch + (n,), ONE), one]
            if not q.t:
                return [put("svdU", (m, s), c), TV(batch + (s,), ZERO), put("svdVh", (s, n), c)]
            if full and m != n:
                return [TNError("full svd"), self.singular(put, q, nb, s), TNError("full svd")]
            return [put("svdU", (m, s), c), self.singular(put, q, nb, s), put("svdVh", (s, n), c)]
        if name in ("eigh", "eigvalsh"):
            return [put("eighW", (n,), ("real",) , 1, "f"), put("eighV", (n, n), c)]
        if name == "cholesky":
            return [put("chol", (n, n), c)]
        raise TNError(name)

    def t_ext(self, t):
        name, args, kw = t.args[0], t.args[1], dict(t.args[2])
        if name in FACTORS_EXT:
            return tuple(self.factors(t))
        if name in ("scipy.linalg.expm", "scipy.linalg.logm", "scipy.linalg.inv", "scipy.linalg.sqrtm"):
            v = self.arr(args[0])
            f = name.split(".")[-1]
            if f == "inv":
                return self.inv(v)
            return self.mfun(f, v)
        if name == "vectorized":
            raise TNError("vectorized")
        if name in ("scipy.linalg.solve_continuous_lyapunov", "scipy.linalg.solve_lyapunov"):
            A, Q = self.a(args[0]), self.a(args[1])
            self.square(A)
            if is1(A.axes[-1]):
                return tmul(Q, tpow(tadd(A, tconj(A)), -1))
            return TV(A.axes, self.lyap(A, Q), dtj(A, Q))
        if name in ("scipy.linalg.solve_sylvester",):
            A, B, Q = (self.a(x) for x in args)
            if self.ctx.iszero(tn.sub(B.p, tH(A).p)):
                return TV(A.axes, self.lyap(A, Q), dtj(A, Q))
            raise TNError("sylvester")
        if name == "scipy.special.comb":
            n, k = self.dimof(args[0]), self.dimof(args[1])
            if k.const() == 2:
                return TV((), tn.scale_by(tn.mul(n, tn.sub(n, ONE)), Fraction(1, 2)))
            raise TNError("comb")
        if name == "math.sqrt":
            return self.elem("sqrt", self.a(args[0]))
        raise TNError(name)

    def lyap(self, A, Q):
        r = A.r
        return tn.lyap(A.p, Q.p, A.axes, self.ctx)

    def mfun(self, f, v):
        if isinstance(v, Blk):
            if f == "expm":
                return self.bexpm(v)
            raise TNError("block " + f)
        self.square(v)
        d = v.axes[-1]
        r = v.r
        p = self.ctx.simp(v.p)
        if f == "expm":
            if not p.t:
                return TV(v.axes, tn.from_atom(tn.delta(d), (r - 2, r - 1)) if not is1(d) else ONE, v.dt)
            if is1(d):
                return TV(v.axes, tn.fn("exp", p), v.dt)
        if f == "logm":
            if is1(d):
                return TV(v.axes, tn.fn("log", p), v.dt)
            if p == tn.from_atom(tn.delta(d), (r - 2, r - 1)):
                return TV(v.axes, ZERO, v.dt)
            inner = _unwrap(p, "expm", r)
            if inner is not None:
                pass
        return TV(v.axes, self.matfun(f, TV(v.axes, p, v.dt)), v.dt)

    def bexpm(self, v):
        """Exponential of a block matrix."""
        if v.rows != v.cols:
            raise TNError("block exponential")
        n = len(v.rows)
        grid = [[self.ctx.simp(x.p) for x in r] for r in v.g]
        # strictly block triangular: finite series
        for low in (True, False):
            if all(not grid[i][j].t for i in range(n) for j in range(n) if (j >= i if low else j <= i)):
                B = Blk(v.rows, v.cols, [[TV(v.g[i][j].axes, grid[i][j], v.dt) for j in range(n)] for i in range(n)])
                I = Blk(v.rows, v.cols, [[TV(v.g[i][j].axes, tn.from_atom(tn.delta(v.rows[i]), (len(v.batch), len(v.batch) + 1)) if i == j else ZERO, v.dt) for j in range(n)] for i in range(n)])
                acc, term, f = I, I, 1
                for q in range(1, n):
                    term = bmm(term, B)
                    f *= q
                    acc = Blk(v.rows, v.cols, [[tadd(x, tmul(y, tconst(Fraction(1, f)))) for x, y in zip(a, b)] for a, b in zip(acc.g, term.g)])
                return acc
        args = tuple(x for r in grid for x in r)
        bt = tuple(d for d in v.batch)
        out = []
        for i in range(n):
            row = []
            for j in range(n):
                a = tn.atom("mat", "bexpm", (i, j) + args, bt + (v.rows[i], v.cols[j]), ("c",) if v.dt == "c" else ())
                row.append(TV(bt + (v.rows[i], v.cols[j]), tn.from_atom(a), v.dt))
            out.append(row)
        return Blk(v.rows, v.cols, out)

    # -- randomness

    def t_random(self, t):
        name, fresh, args, kw = t.args
        r = self.randoms.get(fresh)
        if r is None:
            kw = dict(kw)
            size = kw.get("size")
            if size is None and name.endswith("randn"):
                shape = tuple(self.dimof(x) for x in args) if not (len(args) == 1 and args[0].op == "gstar") else ()
            elif size is None and name.endswith((".rand",)):
                shape = tuple(self.dimof(x) for x in args)
            elif size is None:
                k = {"random.normal": 2, "random.uniform": 2, "random.random": 0, "random.random_sample": 0, "random.standard_normal": 0, "random.standard_exponential": 0}.get(name, 9)
                shape = self.shape_of(args[k]) if len(args) > k else ()
            else:
                shape = self.shape_of(size)
            flags = ()
            unit = False
            if name in ("random.rand", "random.random", "random.random_sample"):
                flags, unit = ("pos",), True
            elif name == "random.uniform":
                lo, hi = (args[k] if len(args) > k else kw.get(w, const(d)) for k, w, d in ((0, "low", 0), (1, "high", 1)))
                if all(q.op == "const" and isinstance(q.args[0], (int, float)) for q in (lo, hi)):
                    lo, hi = lo.args[0], hi.args[0]
                    flags, unit = (("pos",) if 0 <= lo < hi else ()), 0 <= lo < hi <= 1
            r = symv("rnd%d" % len(self.randoms), shape, "f", flags)
            if unit:
                (mono, _), = r.p.t.items()
                self.model.unitdraws.add(tn._BYID[mono[0][0]])
            self.randoms[fresh] = r
        return r

    def np_spacing(self, args, kw):
        return TV((), tn.from_atom(tn.TINY)) if self.tiny else TV((), ZERO)

    def np_isnan(self, args, kw):
        return Bool(False, "generic")

    def np_iscomplexobj(self, args, kw):
        return Bool(self.arr(args[0]).dt == "c")

    def np_isrealobj(self, args, kw):
        return Bool(self.arr(args[0]).dt != "c")

    def np_sort(self, args, kw):
        v = self.a(args[0])
        if v.r == 1 and len(v.p.t) == 1:
            # sorting permutes the entries of a fresh draw
            return v
        raise TNError("sort")

    def np_flip(self, args, kw):
        v = self.a(args[0])
        if v.r == 1:
            return self.slice_axis(v, 0, mk("slice_obj", const(None), const(None), const(-1)))
        raise TNError("flip")


def _bl(n):
    return ["b%d" % i for i in range(n)]


def _unwrap(p, name, r):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and c == 1 and tn._BYID[m[0][0]].kind == "mat" and tn._BYID[m[0][0]].name == name:
            return tn._BYID[m[0][0]]
    return None


def _scalar_eye(p, r, d):
    """c with p = c * identity, else None."""
    if not p.t:
        return None
    D = tn.delta(d).aid
    out = {}
    for m, c in p.t.items():
        hit = None
        for q, (aid, idx, e) in enumerate(m):
            if aid == D and set(idx) == {r - 2, r - 1} and e == 1:
                hit = q
        if hit is None:
            return None
        rest = m[:hit] + m[hit + 1:]
        if any(i >= r - 2 for _, idx, _ in rest for i in idx):
            return None
        out[rest] = out.get(rest, 0) + c
    return Poly(out)


def common_scalar(p, r):
    """Split off positive factors without matrix labels common to all terms."""
    common = None
    for m in p.t:
        here = {}
        for aid, idx, e in m:
            a = tn._BYID[aid]
            if any(i < 0 or i >= r - 2 for i in idx):
                continue
            if tn.is_pos_factor(a, e):
                here[(aid, idx)] = e
        if common is None:
            common = here
        else:
            common = {k: e for k, e in common.items() if here.get(k) == e}
    if not common:
        cs = set(abs(c) for c in p.t.values())
        return None, None
    fs = [(tn._BYID[a], i, e) for (a, i), e in common.items()]
    s = {}
    tn._norm(fs, F1, s, {})
    o = {}
    for m, c in p.t.items():
        tn._norm(tn._rename(m, None) + [(a, i, -e) for a, i, e in fs], c, o, {})
    return Poly(s), Poly(o)


FACTORS = {"linalg.svd", "linalg.qr", "linalg.eigh", "linalg.cholesky", "linalg.eigvalsh"}
FACTORS_EXT = {"scipy.linalg.svd", "scipy.linalg.qr", "scipy.linalg.eigh"}

ELEM = {
    "cos": "cos", "sin": "sin", "exp": "exp", "log": "log", "arccos": "arccos", "arcsin": "arcsin", "arctan": "arctan",
    "tanh": "tanh", "arctanh": "arctanh", "arccosh": "arccosh", "cosh": "cosh", "sinh": "sinh", "arcsinh": "arcsinh",
    "tan": "tan", "sinc": "sinc", "square": "square", "log1p": "log1p", "expm1": "expm1", "sign": "sign", "abs": "abs",
}
