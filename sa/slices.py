"""Restriction of a normal form over stacked arrays to one slice.

A normal form acts slice by slice when every factor that carries the stacking
axis carries it with the stacking index of the result, and nothing sums over
that axis or depends on its length.  The restriction drops the axis everywhere
(also inside the arguments of functions and matrix functions); it is a normal
form over the arrays of a single copy.
"""
from fractions import Fraction

from . import tn
from .tn import TNError, Poly


class Couples(Exception):
    """Slices are coupled."""


class Slice:
    def __init__(self, K, name, dims=(), rename=None):
        self.K = K  # length of the stacking axis
        self.name = name  # name of that size
        self.dims = {tn.atom("dim", a, (), (), ("pos",)): tn.dim(b) for a, b in dims}
        self.rename = rename or {}
        self.memo = {}

    def pos(self, a):
        return [i for i, d in enumerate(a.axes) if d == self.K]

    def dim(self, d):
        if not self.dims or not d.t:
            return d
        out = tn.ZERO
        for mono, c in d.t.items():
            acc = tn.scale_by(tn.ONE, c)
            for aid, idx, e in mono:
                a = tn._BYID[aid]
                acc = tn.mul(acc, tn.power(self.dims.get(a, tn.from_atom(a, idx)), e))
            out = tn.add(out, acc)
        return out

    def poly(self, p, lab):
        """lab: free label of the stacking axis in the frame of p; None: every
        monomial sums over it once."""
        key = (p, lab)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._poly(p, lab)
        return r

    def summed(self, mono):
        ls = set()
        for aid, idx, e in mono:
            for i in self.pos(tn._BYID[aid]):
                ls.add(idx[i])
        return ls

    def scalar(self, p):
        """The summand of a sum over the slices."""
        out = {}
        for mono, c in p.t.items():
            ls = self.summed(mono)
            if not ls:
                fs = [f for f in mono if not (tn._BYID[f[0]].kind == "dim" and tn._BYID[f[0]].name == self.name)]
                if len(fs) != len(mono) - 1 or [f for f in mono if f not in fs][0][2] != 1:
                    raise Couples("a term is not a sum over the copies")
                self._mono(tuple(fs), c, None, out)
                continue
            if len(ls) != 1 or next(iter(ls)) >= 0:
                raise Couples("a term combines several copies")
            self._mono(mono, c, next(iter(ls)), out)
        return Poly(out)

    def _poly(self, p, lab):
        out = {}
        for mono, c in p.t.items():
            self._mono(mono, c, lab, out)
        return Poly(out)

    def _mono(self, mono, c, lab, out):
        sh = lambda i: i - 1 if lab is not None and lab >= 0 and i > lab else i
        acc = [(c, [])]
        bd = {}
        for aid, idx, e in mono:
            a = tn._BYID[aid]
            for i, d in zip(idx, a.axes):
                if i < 0 and not (d == self.K):
                    bd[i] = self.dim(d)
        for aid, idx, e in mono:
            a = tn._BYID[aid]
            if a.kind == "dim":
                if a.name == self.name:
                    raise Couples("depends on the number of copies")
                q = self.dims.get(a)
                if q is not None:
                    acc = [(x * v, y + tn._rename(mm, {})) for x, y in acc for mm, v in tn.power(q, e).t.items()]
                else:
                    acc = [(x, y + [(a, idx, e)]) for x, y in acc]
                continue
            ps = self.pos(a)
            if len(ps) > 1:
                raise Couples("the stacking axis occurs twice in one factor")
            if ps and idx[ps[0]] != lab:
                raise Couples("sums over the copies")
            q = self.atom(a, ps[0] if ps else None, e)
            if q is None:
                acc = [(x, y + [(a, tuple(sh(i) for i in idx), e)]) for x, y in acc]
                continue
            q, e = q
            left = [sh(i) for n, i in enumerate(idx) if not ps or n != ps[0]]
            lm = dict(enumerate(left))
            for _ in range(e):
                acc = [(x * v, y + tn._rename(mm, lm)) for x, y in acc for mm, v in q.t.items()]
        for x, y in acc:
            tn._norm(y, x, out, bd)

    def atom(self, a, i, e):
        """(normal form of atom**e without its stacking axis, exponent left)."""
        axes = tuple(self.dim(d) for n, d in enumerate(a.axes) if n != i)
        whole = Fraction(e).denominator == 1 and e > 0
        if a.kind in ("sym", "delta") or not a.args:
            if a.kind in ("prime", "I"):
                return None
            name = self.rename.get(a.name, a.name) if isinstance(a.name, str) else a.name
            if axes == a.axes and name == a.name:
                return None
            if a.kind == "delta":
                q = tn.from_atom(tn.delta(axes[0]))
            else:
                q = tn.from_atom(tn.atom(a.kind, name, a.args, axes, a.flags))
        else:
            args = tuple(self.poly(x, i) if isinstance(x, Poly) else x for x in a.args)
            if args == a.args and axes == a.axes:
                return None
            if a.kind == "pw":
                # factors of a power carry their exponent
                return tn.power(args[0], e), 1
            if a.kind == "fn":
                q = tn.fn(a.name, args[0])
            elif a.name in ("inv", "expm", "logm", "det", "lyap"):
                q = tn.matfn(a.name, args, axes, a.flags - {"symm"})
            else:
                q = tn.from_atom(tn.atom(a.kind, a.name, args, axes, a.flags))
        if not whole:
            return tn.power(q, e), 1
        return q, int(e)
