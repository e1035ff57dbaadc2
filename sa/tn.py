"""Index-notation polynomials: the abstract domain for array expressions.

A value of rank r is a polynomial whose monomials are products of atoms with
index labels: labels ``0..r-1`` are the axes of the value, negative labels are
summed.  Monomials are kept in a canonical form (deltas eliminated, summed
labels named canonically), so equality of values is equality of dictionaries.
Facts about atoms (orthonormality, unit norm, inverses) are oriented rewrite
rules of a context.
"""
import itertools
import time
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)


class TNError(Exception):
    """The domain cannot represent the expression."""


class DivZero(TNError):
    pass


# --------------------------------------------------------------------- atoms


class Atom:
    __slots__ = ("kind", "name", "args", "axes", "flags", "aid", "symm")

    def __repr__(self):
        s = self.name if isinstance(self.name, str) else str(self.name)
        if self.kind in ("pw", "fn", "mat", "chi"):
            s = f"{s}<{','.join(str(a) for a in self.args)}>"
        if "conj" in self.flags:
            s += "*"
        return s


_ATOMS = {}
_BYID = []


def atom(kind, name, args=(), axes=(), flags=()):
    flags = frozenset(flags)
    key = (kind, name, args, axes, flags)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.axes, a.flags = kind, name, args, axes, flags
        a.symm = kind == "delta" or "symm" in flags or ("herm" in flags and "c" not in flags)
        a.aid = len(_BYID)
        _BYID.append(a)
        _ATOMS[key] = a
    return a


# ---------------------------------------------------------------------- poly


class Poly:
    """Immutable; t: dict mono -> Fraction; mono: sorted tuple (aid, idx, exp)."""

    __slots__ = ("t", "_k", "_h")

    def __init__(self, t):
        self.t = t
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __bool__(self):
        return bool(self.t)

    def __repr__(self):
        return show(self)

    def const(self):
        """The rational value if constant, else None."""
        if not self.t:
            return F0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None


ZERO = Poly({})
ONE = Poly({(): F1})


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items()):
        fs = []
        for aid, idx, e in m:
            a = _BYID[aid]
            s = repr(a)
            if len(s) > 120:
                s = s[:117] + "..."
            if idx:
                s += "[" + ",".join(str(i) if i >= 0 else "abcdefghijkl"[min(-i - 1, 11)] for i in idx) + "]"
            if e != 1:
                s += f"^{e}"
            fs.append(s)
        cs = "" if c == 1 and fs else ("-" if c == -1 and fs else str(c) + ("*" if fs else ""))
        out.append(cs + "*".join(fs))
    return " + ".join(out)


def num(c):
    """Exact constant; complex and irrational parts become atoms."""
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, complex):
        return add(num(c.real), scale_by(Poly({((IUNIT.aid, (), 1),): F1}), Fraction(c.imag)))
    import math

    if isinstance(c, float):
        if math.isinf(c) or math.isnan(c):
            raise TNError("non-finite constant")
        for k in (1, 2, 3, 4):
            for d in (1, 2, 3, 4, 6, 8):
                if c == math.pi * k / d:
                    return Poly({((PI.aid, (), 1),): Fraction(k, d)})
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


IUNIT = atom("I", "i")
PI = atom("sym", "pi", (), (), ("pos",))
EPS = atom("sym", "eps", (), (), ("pos",))  # series variable
TINY = atom("sym", "tiny", (), (), ("pos",))  # rounding guards


def dim(name):
    return Poly({((atom("dim", name, (), (), ("pos",)).aid, (), 1),): F1})


def from_atom(a, idx=None, e=1):
    if idx is None:
        idx = tuple(range(len(a.axes)))
    out = {}
    _norm([(a, tuple(idx), Fraction(e) if not isinstance(e, int) else e)], F1, out, {})
    return Poly(out)


def scale_by(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return Poly({m: v * c for m, v in p.t.items()})


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    out = dict(a.t)
    for m, c in b.t.items():
        v = out.get(m, F0) + c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return Poly(out)


def neg(a):
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    return add(a, neg(b))


def free_dims(p):
    """dict free label -> dim."""
    out = {}
    for m in p.t:
        for aid, idx, e in m:
            ax = _BYID[aid].axes
            for k, i in enumerate(idx):
                if i >= 0 and i not in out:
                    out[i] = ax[k]
    return out


def bound_dims(factors):
    bd = {}
    for a, idx, e in factors:
        for k, i in enumerate(idx):
            if i < 0 and i not in bd:
                bd[i] = a.axes[k]
    return bd


def atoms_of(p, deep=True, out=None):
    if out is None:
        out = set()
    for m in p.t:
        for aid, idx, e in m:
            a = _BYID[aid]
            if a not in out:
                out.add(a)
                if deep:
                    for x in a.args:
                        if isinstance(x, Poly):
                            atoms_of(x, True, out)
    return out


_fresh = [-1000]


def _freshlab():
    _fresh[0] -= 1
    return _fresh[0]


def _rename(mono, lab):
    """mono -> factor list; free labels through lab, bound labels fresh."""
    m = {}
    out = []
    for aid, idx, e in mono:
        n = []
        for i in idx:
            if i >= 0:
                n.append(lab[i] if lab is not None else i)
            else:
                if i not in m:
                    m[i] = _freshlab()
                n.append(m[i])
        out.append((_BYID[aid], tuple(n), e))
    return out


LIMIT = [400000]  # factor normalisations per context
_count = [0]
SECONDS = 25
_until = [float("inf")]


def reset_budget(n=400000):
    _count[0] = 0
    LIMIT[0] = n
    _until[0] = time.monotonic() + SECONDS


def _accum(out, mono, c):
    v = out.get(mono, F0) + c
    if v:
        out[mono] = v
    else:
        out.pop(mono, None)


_PRIMES = {}


def prime_atom(p):
    a = _PRIMES.get(p)
    if a is None:
        a = _PRIMES[p] = atom("prime", p, (), (), ("pos",))
    return a


def factorint(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _norm(factors, coef, out, bd):
    """Normalise a product and add it to ``out``.

    bd: dims of summed labels (for labels that vanish)."""
    if not coef:
        return
    _count[0] += 1
    if _count[0] > LIMIT[0] or not _count[0] % 64 and time.monotonic() > _until[0]:
        raise TNError("expression too large")
    bd = dict(bd)
    for a, idx, e in factors:
        for k, i in enumerate(idx):
            if i < 0 and i not in bd:
                bd[i] = a.axes[k]
    while True:
        d = {}
        for a, idx, e in factors:
            if a.symm and idx[-2] > idx[-1]:
                idx = idx[:-2] + (idx[-1], idx[-2])
            k = (a, idx)
            d[k] = d.get(k, 0) + e
        again = False
        fs = []
        items = list(d.items())
        for n, ((a, idx), e) in enumerate(items):
            if e == 0:
                continue
            kind = a.kind
            if kind == "I":
                e = int(e) % 4
                if e >= 2:
                    coef = -coef
                    e -= 2
                if e:
                    fs.append((a, idx, 1))
                continue
            if kind == "prime":
                f = Fraction(e)
                fl = f.numerator // f.denominator
                if fl:
                    coef *= Fraction(a.name) ** fl
                f -= fl
                if f:
                    fs.append((a, idx, f))
                continue
            if kind == "chi":
                e = 1
            if "unit" in a.flags and "c" not in a.flags:
                e = int(e) % 2
                if not e:
                    continue
            if kind == "delta":
                i, j = idx
                if i == j:
                    if i >= 0:
                        continue
                    # trace of the identity if the label occurs nowhere else
                    continue
                if i < 0 or j < 0:
                    if i < 0:
                        src, dst = i, j
                    else:
                        src, dst = j, i
                    rest = fs + [(x, y, z) for (x, y), z in items[n + 1:] if z != 0]
                    factors = [(x, tuple(dst if q == src else q for q in y), z) for x, y, z in rest]
                    bd.pop(src, None)
                    again = True
                    break
                rest = fs + [(x, y, z) for (x, y), z in items[n + 1:] if z != 0]
                if any(j in y for x, y, z in rest):
                    factors = [(x, tuple(i if q == j else q for q in y), z) for x, y, z in rest] + [(a, idx, 1)]
                    again = True
                    break
                fs.append((a, idx, 1))
                continue
            if kind == "pw" and e >= 1:
                fl = int(e) if not isinstance(e, Fraction) else e.numerator // e.denominator
                if fl >= 1:
                    rest = fs + [(x, y, z) for (x, y), z in items[n + 1:] if z != 0]
                    if e - fl:
                        rest.append((a, idx, e - fl))
                    base = a.args[0]
                    _expand(base, idx, fl, rest, coef, out, bd)
                    return
            if kind == "fn" and a.name in ("sin", "sinh") and e >= 2:
                rest = fs + [(x, y, z) for (x, y), z in items[n + 1:] if z != 0]
                c = atom("fn", {"sin": "cos", "sinh": "cosh"}[a.name], a.args, a.axes, a.flags)
                if e - 2:
                    rest = rest + [(a, idx, e - 2)]
                _norm(rest, coef if a.name == "sin" else -coef, out, bd)
                _norm(rest + [(c, idx, 2)], -coef if a.name == "sin" else coef, out, bd)
                return
            if isinstance(e, Fraction) and e.denominator == 1:
                e = e.numerator
            fs.append((a, idx, e))
        if again:
            continue
        factors = fs
        break
    exps = [f for f in factors if f[0].kind == "fn" and f[0].name == "exp"]
    if len(exps) > 1 or (exps and exps[0][2] != 1):
        r = _merge_exp(exps)
        if r is not None:
            rest = [f for f in factors if f not in exps]
            if isinstance(r, Poly):  # exp of zero
                _norm(rest, coef, out, bd)
            else:
                _norm(rest + [r], coef, out, bd)
            return
    used = set()
    for a, idx, e in factors:
        used.update(idx)
    missing = [b for b in bd if b not in used]
    if missing:
        acc = [([], coef)]
        for b in missing:
            new = []
            for f, c in acc:
                for m, c2 in bd[b].t.items():
                    new.append((f + [(_BYID[x], y, z) for x, y, z in m], c * c2))
            acc = new
        for f, c in acc:
            _norm(factors + f, c, out, {k: v for k, v in bd.items() if k not in missing})
        return
    _accum(out, _canon(factors), coef)


def _merge_exp(exps):
    labs = []
    for a, idx, e in exps:
        for i in idx:
            if i not in labs:
                labs.append(i)
    tot = ZERO
    for a, idx, e in exps:
        tot = add(tot, scale_by(relabel(a.args[0], {k: labs.index(i) for k, i in enumerate(idx)}), Fraction(e)))
    if not tot.t:
        return ONE
    at, order = _compact("fn", "exp", tot)
    return (at, tuple(labs[i] for i in order), 1)


def relabel(p, m):
    """Rename free labels (to free labels)."""
    out = {}
    for mono, c in p.t.items():
        _norm(_rename(mono, m), c, out, {})
    return Poly(out)


def _expand(base, idx, n, rest, coef, out, bd):
    lab = {k: i for k, i in enumerate(idx)}
    acc = [([], coef)]
    for _ in range(n):
        new = []
        for f, c in acc:
            for m, c2 in base.t.items():
                new.append((f + _rename(m, lab), c * c2))
        acc = new
    for f, c in acc:
        _norm(rest + f, c, out, bd)


def _canon(factors):
    bl = []
    for a, idx, e in factors:
        for i in idx:
            if i < 0 and i not in bl:
                bl.append(i)
    if not bl:
        return _finish(factors, None)
    if len(bl) == 1:
        return _finish(factors, {bl[0]: -1})
    color = {b: 0 for b in bl}
    ncl = 1
    for _ in range(len(bl) + 1):
        sig = {b: [] for b in bl}
        for a, idx, e in factors:
            r = len(idx)
            lab = tuple(("f", i) if i >= 0 else ("b", color[i]) for i in idx)
            for k, i in enumerate(idx):
                if i < 0:
                    pos = k
                    others = lab
                    same = tuple(q for q, j in enumerate(idx) if j == i)
                    if a.symm:
                        if k >= r - 2:
                            pos = r - 2
                            oth = lab[r - 1] if k == r - 2 else lab[r - 2]
                            others = lab[: r - 2] + (oth,)
                        else:
                            others = lab[: r - 2] + tuple(sorted(lab[r - 2:]))
                        same = tuple(sorted(min(q, r - 2) for q in same))
                    sig[i].append((a.aid, e, pos, others, same))
        keyed = {b: (color[b], tuple(sorted(sig[b]))) for b in bl}
        ranks = {k: n for n, k in enumerate(sorted(set(keyed.values())))}
        color = {b: ranks[keyed[b]] for b in bl}
        if len(ranks) == ncl:
            break
        ncl = len(ranks)
        if ncl == len(bl):
            break
    groups = {}
    for b in bl:
        groups.setdefault(color[b], []).append(b)
    gs = [groups[c] for c in sorted(groups)]
    if all(len(g) == 1 for g in gs):
        return _finish(factors, {g[0]: -n - 1 for n, g in enumerate(gs)})
    total = 1
    for g in gs:
        for q in range(2, len(g) + 1):
            total *= q
    if total > 5040:
        return _finish(factors, {b: -n - 1 for n, b in enumerate(sorted(bl, key=lambda b: (color[b], bl.index(b))))})
    best = None
    for perm in itertools.product(*[itertools.permutations(g) for g in gs]):
        order = [b for g in perm for b in g]
        m = _finish(factors, {b: -n - 1 for n, b in enumerate(order)})
        if best is None or m < best:
            best = m
    return best


def _finish(factors, lab):
    fs = []
    for a, idx, e in factors:
        if lab:
            idx = tuple(lab[i] if i < 0 else i for i in idx)
        if a.symm and idx[-2] > idx[-1]:
            idx = idx[:-2] + (idx[-1], idx[-2])
        fs.append((a.aid, idx, e))
    fs.sort()
    return tuple(fs)


# -------------------------------------------------------------------- einsum


def einsum(ops, out, dims=None):
    """ops: list of (Poly, labels); out: labels of the result axes.

    dims: label -> dim for labels absent from every operand polynomial."""
    lab = {}
    for n, l in enumerate(out):
        lab[l] = n
    bound = {}
    for p, ls in ops:
        for l in ls:
            if l is not None and l not in lab:
                lab[l] = _freshlab()
                bound[l] = lab[l]
    acc = [([], F1)]
    for p, ls in ops:
        m = {k: lab[l] for k, l in enumerate(ls) if l is not None}
        new = []
        for f, c in acc:
            for mono, c2 in p.t.items():
                new.append((f + _rename(mono, m), c * c2))
        acc = new
        if len(acc) > 200000:
            raise TNError("expression too large")
    bd = {}
    for l, b in bound.items():
        if dims and l in dims:
            bd[b] = dims[l]
        else:
            for p, ls in ops:
                if l in ls:
                    fd = free_dims(p).get(ls.index(l))
                    if fd is not None:
                        bd[b] = fd
                        break
    res = {}
    for f, c in acc:
        _norm(f, c, res, bd)
    return Poly(res)


def mul(a, b):
    """Elementwise product in a common frame."""
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale_by(b, ca)
    if cb is not None:
        return scale_by(a, cb)
    res = {}
    for m1, c1 in a.t.items():
        f1 = _rename(m1, None)
        for m2, c2 in b.t.items():
            _norm(f1 + _rename(m2, None), c1 * c2, res, {})
    return Poly(res)


def conj(p):
    out = {}
    for mono, c in p.t.items():
        fs = []
        for a, idx, e in _rename(mono, None):
            b, idx, e, s = _conj_factor(a, idx, e)
            if s < 0:
                c = -c
            fs.append((b, idx, e))
        _norm(fs, c, out, {})
    return Poly(out)


_CONJ = {}


def _conj_factor(a, idx, e):
    k = a.kind
    if k == "mat" and a.name in ("cqrR", "chol") and idx[-1] == idx[-2]:
        return a, idx, e, 1
    if k == "I":
        return a, idx, e, (-1 if e % 2 else 1)
    if k in ("prime", "dim", "delta", "chi"):
        return a, idx, e, 1
    if k == "sym":
        if "c" not in a.flags:
            return a, idx, e, 1
        if "unit" in a.flags:
            return a, idx, -e, 1
        if "herm" in a.flags:
            return a, idx[:-2] + (idx[-1], idx[-2]), e, 1
        return atom("sym", a.name, a.args, a.axes, a.flags ^ {"conj"}), idx, e, 1
    r = _CONJ.get(a)
    if r is None:
        r = _CONJ[a] = _conj_atom(a)
    b, perm = r
    return b, tuple(idx[i] for i in perm), e, 1


def _conj_atom(a):
    """(atom, perm): conj(a)[idx] = atom[idx[perm]]"""
    ident = tuple(range(len(a.axes)))
    if "real" in a.flags or a.kind == "mat" and a.name in ("svdS", "eighW"):
        return a, ident
    if a.kind in ("pw", "fn"):
        q = conj(a.args[0])
        if q == a.args[0]:
            return a, ident
        at, order = _compact(a.kind, a.name, q, a.flags)
        return at, order
    if a.kind == "mat" and "herm" in a.flags:
        return a, ident[:-2] + (ident[-1], ident[-2])
    if a.kind == "mat":
        args = tuple(conj(x) if isinstance(x, Poly) else x for x in a.args)
        if args == a.args and "c" not in a.flags:
            return a, ident
        if a.name in ("inv", "expm", "logm", "det", "lyap"):
            p = mat_unary(a.name, args, a.axes, a.flags)
            if len(p.t) != 1:
                raise TNError("conjugate")
            (m, c), = p.t.items()
            if len(m) != 1 or c != 1:
                raise TNError("conjugate")
            return _BYID[m[0][0]], m[0][1]
        return atom("mat", a.name, a.args, a.axes, a.flags ^ {"conj"}), ident
    raise TNError("conjugate of " + a.kind)


def is_real(p):
    return conj(p) == p


def real(p):
    return scale_by(add(p, conj(p)), Fraction(1, 2))


def imag(p):
    d = scale_by(sub(p, conj(p)), Fraction(-1, 2))
    return mul(d, Poly({((IUNIT.aid, (), 1),): F1}))


# --------------------------------------------------------- composite builders


def _compact(kind, name, p, flags=()):
    """Atom for a function of ``p``; returns (atom, order): atom axes k is free
    label order[k] of p."""
    fd = free_dims(p)
    labs = sorted(fd)
    if not labs:
        return atom(kind, name, (p,), (), flags), ()
    best = None
    perms = itertools.permutations(labs) if len(labs) <= 3 else [tuple(labs)]
    for perm in perms:
        q = relabel(p, {l: n for n, l in enumerate(perm)}) if list(perm) != list(range(len(perm))) else p
        k = (q.key,)
        if best is None or k < best[0]:
            best = (k, q, perm)
    _, q, perm = best
    return atom(kind, name, (q,), tuple(fd[l] for l in perm), flags), tuple(perm)


def is_pos_factor(a, e, idx=None):
    if idx and a.kind == "mat" and a.name in ("cqrR", "chol") and idx[-1] == idx[-2]:
        return True
    if "pos" in a.flags or a.kind in ("prime", "dim"):
        return True
    if a.kind == "fn" and a.name in ("exp", "cosh", "abs", "arccos", "arccosh"):
        return True
    if a.kind == "pw" and Fraction(e).denominator > 1:
        return True
    return False


def const_pow(c, q):
    """c**q for rational c > 0 as Poly."""
    q = Fraction(q)
    if q.denominator == 1:
        return Poly({(): c ** int(q)})
    fs = []
    for p, e in factorint(c.numerator).items():
        fs.append((prime_atom(p), (), e * q))
    for p, e in factorint(c.denominator).items():
        fs.append((prime_atom(p), (), -e * q))
    out = {}
    _norm(fs, F1, out, {})
    return Poly(out)


def power(p, q):
    """Elementwise p**q."""
    q = Fraction(q)
    if q == 0:
        return ONE
    if q == 1:
        return p
    if not p.t:
        if q < 0:
            raise DivZero("division by zero")
        return ZERO
    if q.denominator == 1 and q > 0 and (len(p.t) <= 1 or q <= 4):
        r = p
        for _ in range(int(q) - 1):
            r = mul(r, p)
        return r
    c = p.const()
    if c is not None:
        if c > 0 or q.denominator == 1:
            if c > 0:
                return const_pow(c, q)
            return Poly({(): c ** int(q)})
    # extract content
    lead = max(p.t, key=_order)
    lc = p.t[lead]
    extra = ONE
    if q.denominator == 1 or lc > 0:
        p = scale_by(p, 1 / lc)
        extra = const_pow(lc, q) if lc > 0 else Poly({(): lc ** int(q)})
    else:
        p = scale_by(p, 1 / abs(lc))
        extra = const_pow(abs(lc), q)
    # common label-free positive factors; all label-free-of-sum factors if single
    monos = list(p.t)
    common = {}
    for n, m in enumerate(monos):
        here = {}
        boundlabs = {i for _, idx, _ in m for i in idx if i < 0}
        for aid, idx, e in m:
            a = _BYID[aid]
            if any(i < 0 for i in idx):
                continue
            ok = is_pos_factor(a, e, idx) or q.denominator == 1
            if ok:
                here[(aid, idx)] = e
        if n == 0:
            common = here
        else:
            new = {}
            for k, e in common.items():
                e2 = here.get(k, 0)
                if k in here or True:
                    v = min(e, e2)
                    if v:
                        new[k] = v
            common = new
    if common:
        fs = []
        inv = []
        for (aid, idx), e in common.items():
            fs.append((_BYID[aid], idx, e * q))
            inv.append((aid, idx, -e))
        o = {}
        for m, cc in p.t.items():
            _norm(_rename(m, None) + [(_BYID[a], i, e) for a, i, e in inv], cc, o, {})
        p = Poly(o)
        o = {}
        for m, cc in extra.t.items():
            _norm(_rename(m, None) + fs, cc, o, {})
        extra = Poly(o)
    c = p.const()
    if c is not None:
        if c == 1:
            return extra
        if c > 0:
            return mul(extra, const_pow(c, q))
        if q.denominator == 1:
            return scale_by(extra, c ** int(q))
    # even powers of real factors: sqrt(x^2) = |x| stays
    if len(p.t) == 1:
        (m, cc), = p.t.items()
        if len(m) == 1 and cc == 1 and _BYID[m[0][0]].kind == "pw":
            aid, idx, e = m[0]
            o = {}
            _norm([(_BYID[aid], idx, e * q)], F1, o, {})
            return mul(extra, Poly(o))
    at, order = _compact("pw", "pw", p)
    o = {}
    _norm([(at, order, q)], F1, o, {})
    return mul(extra, Poly(o))


def _order(m):
    """Monomial order: weight, then key."""
    w = 0
    for aid, idx, e in m:
        a = _BYID[aid]
        if a.kind in ("prime", "I", "dim"):
            continue
        w += 100 * abs(e) + (1 if a.kind in ("mat", "fn", "pw") else 0)
    return (w, tuple((a, i, Fraction(e)) for a, i, e in m))


def lead_sign(p):
    if not p.t:
        return 1
    return 1 if p.t[max(p.t, key=_order)] > 0 else -1


FN0 = {"cos": F1, "sin": F0, "exp": F1, "arctan": F0, "arctanh": F0, "tanh": F0, "sinh": F0, "cosh": F1, "arcsin": F0, "arcsinh": F0, "tan": F0, "sinc": F1, "abs": F0, "log1p": F0, "expm1": F0}
EVEN = {"cos", "cosh", "abs", "sinc"}
ODD = {"sin", "sinh", "tanh", "arctan", "arctanh", "arcsin", "tan", "arcsinh"}


def fn(name, p):
    """Elementwise function."""
    if not p.t and name in FN0:
        return Poly({(): FN0[name]}) if FN0[name] else ZERO
    if name == "log" and not p.t:
        raise DivZero("log(0)")
    c = p.const()
    if c is not None:
        if name == "arccos" and c == 1:
            return ZERO
        if name == "arccosh" and c == 1:
            return ZERO
        if name == "log" and c == 1:
            return ZERO
    if name == "sign":
        if all(is_pos_factor(_BYID[x], e, i) for m in p.t for x, i, e in m) and all(v > 0 for v in p.t.values()):
            return ONE
    if name == "sinc":  # sin(x)/x
        return mul(fn("sin", p), power(p, -1))
    if name == "abs":
        return power(mul(p, conj(p)), Fraction(1, 2))
    sgn = 1
    if name in EVEN or name in ODD:
        if lead_sign(p) < 0:
            p = neg(p)
            if name in ODD:
                sgn = -1
    if name == "tan":
        return mul(scale_by(fn("sin", p), F1 * sgn), power(fn("cos", p), -1))
    if name == "tanh":
        return mul(scale_by(fn("sinh", p), F1 * sgn), power(fn("cosh", p), -1))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and c == 1 and m[0][2] == 1:
            a = _BYID[m[0][0]]
            if a.kind == "fn" and {"log": "exp", "exp": "log", "cos": "arccos", "sin": "arcsin", "tan": "arctan", "tanh": "arctanh", "cosh": "arccosh", "sinh": "arcsinh"}.get(name) == a.name:
                q = relabel(a.args[0], {k: i for k, i in enumerate(m[0][1])})
                return scale_by(q, F1 * sgn)
            if name == "log" and a.kind == "fn" and a.name == "exp":
                return relabel(a.args[0], {k: i for k, i in enumerate(m[0][1])})
        if name == "log" and c > 0 and not any(i < 0 for _, idx, _ in m for i in idx) and all(is_pos_factor(_BYID[x], e, i) for x, i, e in m) and (len(m) > 1 or (m and m[0][2] != 1) or c != 1):
            r = ZERO
            for x, i, e in m:
                r = add(r, scale_by(fn("log", from_atom(_BYID[x], i, 1) if _BYID[x].kind != "prime" else Poly({(): Fraction(_BYID[x].name)})), Fraction(e)))
            for pr, e in factorint(c.numerator).items():
                r = add(r, scale_by(from_atom(atom("fn", "log", (Poly({(): Fraction(pr)}),), ())), Fraction(e)))
            for pr, e in factorint(c.denominator).items():
                r = add(r, scale_by(from_atom(atom("fn", "log", (Poly({(): Fraction(pr)}),), ())), Fraction(-e)))
            return r
    if name == "exp":
        # keep exp(sum) as one atom; products are merged on normalisation
        for m, c in p.t.items():
            if len(m) == 1 and m[0][2] == 1 and Fraction(c).denominator == 1:
                a = _BYID[m[0][0]]
                if a.kind == "fn" and a.name == "log":
                    q = relabel(a.args[0], {k: i for k, i in enumerate(m[0][1])})
                    return mul(fn("exp", sub(p, Poly({m: c}))), power(q, c))
    at, order = _compact("fn", name, p)
    return scale_by(from_atom(at, order), F1 * sgn)


# matrix functions -----------------------------------------------------------


def transpose_last(p, r):
    return relabel(p, {**{i: i for i in range(r - 2)}, r - 2: r - 1, r - 1: r - 2})


def delta(d):
    return atom("delta", "delta", (), (d, d))


def eye(d):
    return from_atom(delta(d))


def mat_unary(name, args, axes, flags=()):
    """f with f(A^T) = f(A)^T (inv, expm, logm) or scalar det / lyap."""
    A = args[0]
    r = len(axes)
    # the conjugate follows from the arguments
    flags = frozenset(flags) - {"c"}
    if name == "det":
        rr = len(axes) + 2
        At = transpose_last(A, rr)
        if At.key < A.key:
            A = At
        return from_atom(atom("mat", name, (A,) + tuple(args[1:]), axes, flags))
    if name == "lyap":
        # A L + L A^H = Q; transposing: conj(A) L^T + L^T conj(A)^H = Q^T
        cA, Qt = conj(A), transpose_last(args[1], r)
        if (cA.key, Qt.key) < (A.key, args[1].key):
            return from_atom(atom("mat", name, (cA, Qt), axes, flags), tuple(range(r - 2)) + (r - 1, r - 2))
        return from_atom(atom("mat", name, (A, args[1]), axes, flags))
    if name == "logm" and A == from_atom(delta(axes[-1]), (r - 2, r - 1)):
        return ZERO
    At = transpose_last(A, r)
    fl = set(flags)
    if At == A:
        fl.add("symm")
        return from_atom(atom("mat", name, (A,) + tuple(args[1:]), axes, fl))
    if At.key < A.key:
        a = atom("mat", name, (At,) + tuple(args[1:]), axes, fl)
        return from_atom(a, tuple(range(r - 2)) + (r - 1, r - 2))
    return from_atom(atom("mat", name, (A,) + tuple(args[1:]), axes, fl))


def matfn(name, args, axes, flags=()):
    """mat_unary with exp(A + s 1) = exp(s) exp(A) applied."""
    A = args[0]
    if name == "expm" and len(args) == 1:
        i, j = len(axes) - 2, len(axes) - 1
        s, rest = {}, {}
        for m, c in A.t.items():
            fs = [f for f in m if _BYID[f[0]].kind == "delta" and set(f[1]) == {i, j}]
            if fs and not any(i in f[1] or j in f[1] for f in m if f is not fs[0]):
                s[tuple(f for f in m if f is not fs[0])] = c
            else:
                rest[m] = c
        if s:
            e = fn("exp", Poly(s))
            if not rest:
                return mul(e, from_atom(delta(axes[-1]), (i, j)))
            return mul(e, mat_unary("expm", (Poly(rest),), axes, flags))
    return mat_unary(name, args, axes, flags)


# --------------------------------------------------------------------- rules


class Rule:
    """lhs: factors with labels (>=0 parameters, <0 summed); rhs Poly."""

    def __init__(self, lhs, rhs, name=""):
        self.lhs = lhs
        self.rhs = rhs
        self.name = name
        self.bound = {i for _, idx, _ in lhs for i in idx if i < 0}


def match(rule, mono, accept=None):
    """Yield (binding, remaining exponents)."""
    n = len(mono)
    rem = [f[2] for f in mono]
    occ = {}
    for k, (aid, idx, e) in enumerate(mono):
        for i in set(idx):
            occ.setdefault(i, set()).add(k)
    lhs = rule.lhs

    def bind(pat, idx, b, rb):
        nb = dict(b)
        nrb = dict(rb)
        for p, i in zip(pat, idx):
            if p in nb:
                if nb[p] != i:
                    return None
            else:
                if p < 0:
                    if i >= 0 or i in nrb:
                        return None
                    nrb[i] = p
                    for q, v in nb.items():
                        if v == i:
                            return None
                else:
                    if i in nrb:
                        return None
                nb[p] = i
        return nb, nrb

    def go(k, b, rb):
        if k == len(lhs):
            for i in rb:
                for q in occ[i]:
                    if rem[q] != 0:
                        return None
            if accept is not None and not accept(b, rem):
                return None
            return dict(b), list(rem)
        a, pat, e = lhs[k]
        for q in range(n):
            if mono[q][0] != a.aid:
                continue
            r = rem[q]
            if r == 0:
                continue
            if e > 0:
                if r < e:
                    continue
            elif r > e:
                continue
            idx = mono[q][1]
            opts = [idx]
            if a.symm:
                opts.append(idx[:-2] + (idx[-1], idx[-2]))
            for o in opts:
                x = bind(pat, o, b, rb)
                if x is None:
                    continue
                rem[q] = r - e
                y = go(k + 1, *x)
                if y is not None:
                    return y
                rem[q] = r
        return None

    return go(0, {}, {})


_NEST = {}


def _nesting(a):
    """Lyapunov operators in an atom, nested ones included."""
    r = _NEST.get(a)
    if r is None:
        r = 0
        if a.kind in ("mat", "fn", "pw"):
            r = sum(max((sum(_nesting(_BYID[f[0]]) for f in m) for m in p.t), default=0) for p in a.args if isinstance(p, Poly))
            r += a.name == "lyap"
        _NEST[a] = r
    return r


class Ctx:
    """Facts about the atoms of one analysis."""

    def __init__(self):
        self.rules = []
        self.byatom = {}
        self.memo = {}
        self.dyn = {}
        self.substs = {}

    def add(self, lhs, rhs, name=""):
        r = Rule(lhs, rhs, name)
        self.rules.append(r)
        self.byatom.setdefault(lhs[0][0].aid, []).append(r)
        self.memo.clear()
        return r

    # -- dynamic rules

    def dynamic(self, a):
        r = self.dyn.get(a)
        if r is None:
            self.dyn[a] = []
            r = self.dyn[a] = list(self._dynamic(a))
            for x in r:
                if x.name != "lyapunov equation":
                    x.rhs = self.simp(x.rhs)
        return r

    def _dynamic(self, a):
        if a.kind != "mat":
            return
        nb = len(a.axes) - 2
        bt = tuple(range(nb))
        if a.name == "inv":
            A = self.simp(a.args[0])
            if not A.t:
                raise DivZero("inverse of zero")
            lead = max(A.t, key=_order)
            c = A.t[lead]
            rest = Poly({m: v for m, v in A.t.items() if m != lead})
            d = a.axes[-1]
            # A_{b i j} inv_{b j k} = delta_{ik}
            P = nb  # parameter labels: i -> nb, k -> nb+1
            for side in (0, 1):
                lm = {}
                for q in range(nb):
                    lm[q] = q
                if side == 0:
                    lm[nb], lm[nb + 1] = P, -1
                    idx = bt + (-1, P + 1)
                else:
                    lm[nb], lm[nb + 1] = -1, P
                    idx = bt + (P + 1, -1)
                lhs = _rename_rule(lead, lm)
                if not any(-1 in f[1] for f in lhs):
                    continue
                lhs = [(a, idx, 1)] + lhs
                de = from_atom(delta(d), (P, P + 1))
                fd = {**{q: "b%d" % q for q in range(nb)}}
                labels_inv = ["b%d" % q for q in range(nb)]
                if side == 0:
                    t = einsum([(rest, labels_inv + ["i", "j"]), (from_atom(a), labels_inv + ["j", "k"])], labels_inv + ["i", "k"]) if rest.t else ZERO
                else:
                    t = einsum([(from_atom(a), labels_inv + ["k", "j"]), (rest, labels_inv + ["j", "i"])], labels_inv + ["i", "k"]) if rest.t else ZERO
                yield Rule(lhs, scale_by(sub(de, t), 1 / c), "inverse")
        elif a.name == "expm":
            # exp(A) exp(-A) = 1
            p = mat_unary("expm", (neg(a.args[0]),), a.axes, a.flags - {"symm"})
            (m, c), = p.t.items()
            b, idx = _BYID[m[0][0]], m[0][1]
            P = nb
            sub_ = lambda u, v: tuple({nb: u, nb + 1: v}.get(q, q) for q in idx)
            de = from_atom(delta(a.axes[-1]), (P, P + 1))
            yield Rule([(a, bt + (P, -1), 1), (b, sub_(-1, P + 1), 1)], de, "exp(A) exp(-A)")
            yield Rule([(a, bt + (-1, P + 1), 1), (b, sub_(P, -1), 1)], de, "exp(-A) exp(A)")
        elif a.name == "lyap":
            A = self.simp(a.args[0])
            if not A.t:
                raise DivZero("lyapunov equation of zero")
            lead = max(A.t, key=_order)
            c = A.t[lead]
            rest = Poly({m: v for m, v in A.t.items() if m != lead})
            P = nb
            lm = {q: q for q in range(nb)}
            lm[nb], lm[nb + 1] = P, -1
            lhs = _rename_rule(lead, lm)
            if any(-1 in f[1] for f in lhs):
                lb = ["b%d" % q for q in range(nb)]
                L = from_atom(a)
                t = sub(a.args[1], einsum([(L, lb + ["i", "k"]), (conj(A), lb + ["j", "k"])], lb + ["i", "j"]))
                if rest.t:
                    t = sub(t, einsum([(rest, lb + ["i", "k"]), (L, lb + ["k", "j"])], lb + ["i", "j"]))
                yield Rule([(a, bt + (-1, P + 1), 1)] + lhs, scale_by(t, 1 / c), "lyapunov equation")
            cA = self.simp(conj(A))
            lead = max(cA.t, key=_order)
            c = cA.t[lead]
            rest = Poly({m: v for m, v in cA.t.items() if m != lead})
            lm = {q: q for q in range(nb)}
            lm[nb], lm[nb + 1] = P + 1, -1
            lhs = _rename_rule(lead, lm)
            if any(-1 in f[1] for f in lhs):
                lb = ["b%d" % q for q in range(nb)]
                L = from_atom(a)
                t = sub(a.args[1], einsum([(A, lb + ["i", "k"]), (L, lb + ["k", "j"])], lb + ["i", "j"]))
                if rest.t:
                    t = sub(t, einsum([(L, lb + ["i", "k"]), (rest, lb + ["j", "k"])], lb + ["i", "j"]))
                yield Rule([(a, bt + (P, -1), 1)] + lhs, scale_by(t, 1 / c), "lyapunov equation")
        else:
            yield from self.matrules(a)

    def matrules(self, a):
        return ()

    # -- simplification

    def simp(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        out = {}
        todo = list(p.t.items())
        steps = 0
        while todo:
            mono, c = todo.pop()
            new = self.step(mono)
            if new is None:
                _accum(out, mono, c)
            else:
                steps += 1
                if steps > 20000:
                    raise TNError("rewriting does not terminate")
                for m, v in new.t.items():
                    todo.append((m, v * c))
        r = Poly(out)
        self.memo[p] = r
        self.memo[r] = r
        return r

    def step(self, mono):
        aids = {f[0] for f in mono}
        for aid in aids:
            a = _BYID[aid]
            for rule in self.byatom.get(aid, ()):
                if all(f[0].aid in aids for f in rule.lhs):
                    x = match(rule, mono)
                    if x is not None:
                        return self.apply(rule, mono, *x)
            if a.kind == "mat":
                for rule in self.dynamic(a):
                    if all(f[0].aid in aids for f in rule.lhs):
                        if rule.name == "lyapunov equation":
                            r = self.oriented(rule, mono)
                            if r is not None:
                                return r
                            continue
                        x = match(rule, mono)
                        if x is not None:
                            return self.apply(rule, mono, *x)
        for k, (aid, idx, e) in enumerate(mono):
            a = _BYID[aid]
            if a.kind in ("pw", "fn"):
                E = a.args[0]
                S = self.simp(E)
                if S != E:
                    return self.rebuild(mono, k)
                if a.kind == "pw" and e < 0:
                    r = self.pwstep(mono, k)
                    if r is not None:
                        return r
            elif a.kind == "mat":
                args = tuple(self.simp(x) if isinstance(x, Poly) else x for x in a.args)
                if args != a.args:
                    r = self.remat(a, args)
                    if r is not None:
                        return self._replace(mono, k, r)
        return None

    def remat(self, a, args):
        if a.name in ("inv", "expm", "logm", "det", "lyap"):
            return matfn(a.name, args, a.axes, a.flags - {"symm"})
        return from_atom(atom("mat", a.name, args, a.axes, a.flags))

    def _replace(self, mono, k, poly):
        """Replace factor k's atom value by poly (exponent positive integer)."""
        aid, idx, e = mono[k]
        if Fraction(e).denominator != 1 or e < 0:
            poly = power(poly, e)
            e = 1
        rest = [(_BYID[x], y, z) for q, (x, y, z) in enumerate(mono) if q != k]
        out = {}
        _expand(poly, idx, int(e), rest, F1, out, bound_dims(_fl(mono)))
        return Poly(out)

    def rebuild(self, mono, k):
        aid, idx, e = mono[k]
        a = _BYID[aid]
        E = self.simp(a.args[0])
        if a.kind == "pw":
            v = power(E, e)
        else:
            v = fn(a.name, E)
            if e != 1:
                v = power(v, e)
        rest = [(_BYID[x], y, z) for q, (x, y, z) in enumerate(mono) if q != k]
        out = {}
        _expand(v, idx, 1, rest, F1, out, bound_dims(_fl(mono)))
        return Poly(out)

    def pwstep(self, mono, k):
        aid, idx, e = mono[k]
        a = _BYID[aid]
        E = a.args[0]
        lead = max(E.t, key=_order)
        c = E.t[lead]
        # lead monomial with parameters bound to idx
        lhs = _rename_rule(lead, {n: n for n in range(len(idx))})
        rest_mono = tuple(f for q, f in enumerate(mono) if q != k)
        rule = Rule([(a, tuple(range(len(idx))), e)] + lhs, None)
        x = match(rule, mono)
        if x is None:
            return None
        b, rem = x
        # the pw factor must be the one at k
        if rem[k] != 0:
            return None
        rest = [(_BYID[f[0]], f[1], r) for f, r in zip(mono, rem) if r != 0]
        lab = {n: i for n, i in enumerate(idx)}
        bd = bound_dims(_fl(mono))
        live = _live(bd, rest, rule, b)
        out = {}
        _norm(rest + [(a, idx, e + 1)] if e + 1 else rest, 1 / c, out, live)
        for m, v in E.t.items():
            if m == lead:
                continue
            _norm(rest + [(a, idx, e)] + _rename(m, lab), -v / c, out, live)
        return Poly(out)

    def apply(self, rule, mono, b, rem):
        rest = [(_BYID[f[0]], f[1], r) for f, r in zip(mono, rem) if r != 0]
        bd = _live(bound_dims(_fl(mono)), rest, rule, b)
        out = {}
        for m, v in rule.rhs.t.items():
            _norm(rest + _rename(m, b), v, out, bd)
        return Poly(out)

    def oriented(self, rule, mono):
        """Apply a commutation rule only where it decreases the monomial."""

        def weight(m):
            return sum(abs(e) * _nesting(_BYID[aid]) for aid, _, e in m)

        w, key = weight(mono), _order(mono)
        found = []

        def accept(b, rem):
            p = self.apply(rule, mono, dict(b), list(rem))
            c = p.t.get(mono, 0)
            if c == 1:
                return False
            if c:
                p = scale_by(Poly({m: v for m, v in p.t.items() if m != mono}), 1 / (1 - Fraction(c)))
            if any(weight(m) >= w and _order(m) >= key for m in p.t):
                return False
            found.append(p)
            return True

        match(rule, mono, accept)
        return found[0] if found else None

    # -- zero test

    def iszero(self, p):
        p = self.simp(p)
        for _ in range(6):
            if not p.t:
                return True
            q = self.clear(p)
            if q is None:
                return not p.t
            p = self.simp(q)
        return not p.t

    def clear(self, p):
        """Multiply by denominators whose labels are free."""
        den = {}
        for m in p.t:
            for aid, idx, e in m:
                a = _BYID[aid]
                if a.kind == "pw" and e < 0 and all(i >= 0 for i in idx):
                    k = (aid, idx)
                    fl = -(Fraction(e).numerator // Fraction(e).denominator)
                    den[k] = max(den.get(k, 0), fl)
                elif a.kind == "fn" and e < 0 and all(i >= 0 for i in idx):
                    k = (aid, idx)
                    den[k] = max(den.get(k, 0), int(-(Fraction(e).numerator // Fraction(e).denominator)))
        if not den:
            return None
        # only those occurring with different exponents matter, but clearing all is sound
        out = {}
        for m, c in p.t.items():
            fs = _rename(m, None) + [(_BYID[aid], idx, n) for (aid, idx), n in den.items()]
            _norm(fs, c, out, {})
        return Poly(out)


def _live(bd, rest, rule, b):
    """Summed labels of the monomial that are still summed after removing the
    matched factors (pattern-summed labels are consumed by the rule)."""
    gone = {v for k, v in b.items() if k < 0}
    return {k: v for k, v in bd.items() if k not in gone}


def _fl(mono):
    return [(_BYID[x], y, z) for x, y, z in mono]


def _rename_rule(mono, lab):
    """Monomial -> rule factors: free labels through lab, summed labels -10-k."""
    m = {}
    out = []
    for aid, idx, e in mono:
        n = []
        for i in idx:
            if i >= 0:
                n.append(lab[i])
            else:
                m.setdefault(i, -10 - len(m))
                n.append(m[i])
        out.append((_BYID[aid], tuple(n), e))
    return out


# -------------------------------------------------------------------- series


class Ser:
    """Truncated series in EPS: dict power -> list[(coef, factors)] in one frame."""


def series(p, order, ctx, hook=None):
    """Coefficients {power: Poly} of p in EPS up to ``order``."""
    out = {}
    for mono, c in p.t.items():
        fs = _rename(mono, None)
        bd = bound_dims(fs)
        acc = [(F0, c, [])]
        for a, idx, e in fs:
            parts = factor_series(a, e, order, ctx, hook)
            lab = {k: i for k, i in enumerate(idx)}
            new = []
            for w, cc, ff in acc:
                for pw_, q in parts.items():
                    if w + pw_ > order:
                        continue
                    for m, v in q.t.items():
                        new.append((w + pw_, cc * v, ff + _rename(m, lab)))
            acc = new
        for w, cc, ff in acc:
            d = out.setdefault(w, {})
            _norm(ff, cc, d, bd)
    return {w: ctx.simp(Poly(d)) for w, d in out.items() if ctx.simp(Poly(d)).t}


_SER = {}


def has_eps(p):
    return EPS in atoms_of(p)


def factor_series(a, e, order, ctx, hook):
    if a is EPS:
        return {Fraction(e): ONE}
    if a.kind in ("sym", "dim", "prime", "I", "delta", "chi"):
        return {F0: from_atom(a, None, e)}
    if not any(has_eps(x) for x in a.args if isinstance(x, Poly)):
        return {F0: from_atom(a, None, e)}
    key = (a, e, order, id(ctx))
    r = _SER.get(key)
    if r is None:
        r = _SER[key] = _factor_series(a, e, order, ctx, hook)
    return r


def ser_mul(a, b, order):
    out = {}
    for p, x in a.items():
        for q, y in b.items():
            if p + q <= order:
                out[p + q] = add(out.get(p + q, ZERO), mul(x, y))
    return {k: v for k, v in out.items() if v.t}


def ser_add(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = add(out.get(k, ZERO), v)
    return {k: v for k, v in out.items() if v.t}


def ser_pow(s, q, order, ctx):
    """s**q for a series with nonzero leading coefficient."""
    s = {k: ctx.simp(v) for k, v in s.items()}
    s = {k: v for k, v in s.items() if v.t}
    if not s:
        if q < 0:
            raise DivZero("series: division by zero")
        return {}
    q = Fraction(q)
    p0 = min(s)
    e0 = s[p0]
    lead = power(e0, q)
    inv0 = power(e0, -1)
    r = {k - p0: mul(v, inv0) for k, v in s.items() if k != p0}
    r = {k: ctx.simp(v) for k, v in r.items()}
    lim = order - p0 * q
    acc = {F0: ONE}
    term = {F0: ONE}
    coef = F1
    m = 0
    while r and m < 8:
        m += 1
        coef = coef * (q - m + 1) / m
        term = ser_mul(term, r, lim)
        if not term or coef == 0:
            break
        acc = ser_add(acc, {k: scale_by(v, coef) for k, v in term.items()})
    return {k + p0 * q: ctx.simp(mul(v, lead)) for k, v in acc.items() if k + p0 * q <= order}


DERIV = {
    "sin": lambda p: fn("cos", p),
    "cos": lambda p: neg(fn("sin", p)),
    "exp": lambda p: fn("exp", p),
    "log": lambda p: power(p, -1),
    "sinh": lambda p: fn("cosh", p),
    "cosh": lambda p: fn("sinh", p),
    "arctan": lambda p: power(add(ONE, mul(p, p)), -1),
    "arctanh": lambda p: power(sub(ONE, mul(p, p)), -1),
    "arcsin": lambda p: power(sub(ONE, mul(p, p)), Fraction(-1, 2)),
    "arccos": lambda p: neg(power(sub(ONE, mul(p, p)), Fraction(-1, 2))),
    "arccosh": lambda p: power(sub(mul(p, p), ONE), Fraction(-1, 2)),
}


def _factor_series(a, e, order, ctx, hook):
    if a.kind == "pw":
        s = series(a.args[0], order + 3, ctx, hook)
        return ser_pow(s, e, order, ctx)
    if a.kind == "fn":
        s = series(a.args[0], order + 1, ctx, hook)
        neg_p = [k for k in s if k < 0]
        if neg_p:
            raise TNError("series: pole")
        e0 = s.get(F0, ZERO)
        d = {k: v for k, v in s.items() if k > 0}
        out = {F0: fn(a.name, e0)}
        if e0.t == {} and a.name not in FN0 or a.name in ("arccos", "arccosh") and e0.const() == 1:
            raise TNError("series: singular " + a.name)
        # taylor: need higher derivatives
        cur = ctx.simp(fn(a.name, e0))
        term = {F0: ONE}
        fact = F1
        out = {F0: cur}
        name = a.name
        ders = taylor(name, e0, 6, ctx)
        for m in range(1, 7):
            term = ser_mul(term, d, order)
            if not term:
                break
            fact *= m
            out = ser_add(out, {k: scale_by(mul(v, ders[m]), 1 / fact) for k, v in term.items()})
        out = {k: ctx.simp(v) for k, v in out.items()}
        out = {k: v for k, v in out.items() if v.t}
        if e == 1:
            return out
        return ser_pow(out, e, order, ctx)
    if a.kind == "mat":
        if Fraction(e).denominator != 1 or e < 0:
            if len(a.axes) == 0 or True:
                return ser_pow(factor_series(a, 1, order + 2, ctx, hook), e, order, ctx)
        s = mat_series(a, order, ctx, hook)
        out = s
        for _ in range(int(e) - 1):
            out = ser_mul(out, s, order)
        return out
    raise TNError("series of " + a.kind)


def taylor(name, e0, n, ctx):
    """Values of the derivatives 0..n at e0."""
    if name in ("sin", "cos"):
        s, c = fn("sin", e0), fn("cos", e0)
        cyc = [s, c, neg(s), neg(c)] if name == "sin" else [c, neg(s), neg(c), s]
        return [cyc[k % 4] for k in range(n + 1)]
    if name in ("sinh", "cosh"):
        s, c = fn("sinh", e0), fn("cosh", e0)
        cyc = [s, c] if name == "sinh" else [c, s]
        return [cyc[k % 2] for k in range(n + 1)]
    if name == "exp":
        return [fn("exp", e0)] * (n + 1)
    if name == "log":
        out = [fn("log", e0)]
        f = F1
        for k in range(1, n + 1):
            out.append(scale_by(power(e0, -k), f))
            f = -f * k
        return out
    if name in ("arctan", "arctanh", "arcsin", "arcsinh") and not e0.t:
        co = {"arctan": [0, 1, 0, -2, 0, 24, 0], "arctanh": [0, 1, 0, 2, 0, 24, 0], "arcsin": [0, 1, 0, 1, 0, 9, 0], "arcsinh": [0, 1, 0, -1, 0, 9, 0]}[name]
        return [Poly({(): Fraction(c)}) if c else ZERO for c in co][: n + 1]
    if name in DERIV:
        out = [fn(name, e0), DERIV[name](e0)]
        return out + [None] * (n - 1)
    raise TNError("derivative of " + name)


def mm(a, b, r):
    """Batched matrix product of two rank-r polynomials in the same frame."""
    bl = ["b%d" % i for i in range(r - 2)]
    return einsum([(a, bl + ["i", "j"]), (b, bl + ["j", "k"])], bl + ["i", "k"])


def ser_mm(a, b, r, order):
    out = {}
    for p, x in a.items():
        for q, y in b.items():
            if p + q <= order:
                out[p + q] = add(out.get(p + q, ZERO), mm(x, y, r))
    return {k: v for k, v in out.items() if v.t}


def ser_simp(s, ctx):
    s = {k: ctx.simp(v) for k, v in s.items()}
    return {k: v for k, v in s.items() if v.t}


def bc_eye(axes):
    """Identity in the frame (batch.., i, j)."""
    r = len(axes)
    return from_atom(delta(axes[-1]), (r - 2, r - 1))


def mat_series(a, order, ctx, hook):
    name = a.name
    r = len(a.axes)
    if hook is not None:
        s = hook(a, order, ctx)
        if s is not None:
            return s
    if "conj" in a.flags:
        base = atom("mat", name, a.args, a.axes, a.flags ^ {"conj"})
        return {k: conj(v) for k, v in mat_series(base, order, ctx, hook).items()}
    if name == "det":
        s = series(a.args[0], order, ctx, hook)
        A0 = ctx.simp(s.get(F0, ZERO))
        rr = r + 2
        d = {k: v for k, v in s.items() if k > 0}
        bl = ["b%d" % i for i in range(r)]
        axes = a.axes + tuple(a.args[1:3]) if len(a.args) > 2 else None
        fd = free_dims(A0)
        n = fd.get(r)
        full = tuple(fd.get(i, ONE) for i in range(r)) + (n, n)
        ctx_det0 = ctx.simp(mat_unary("det", (A0,), a.axes, a.flags))
        if ctx.simp(sub(A0, bc_eye(full))).t == {}:
            ctx_det0 = ONE
            inv = bc_eye(full)
        else:
            inv = ctx.simp(mat_unary("inv", (A0,), full))
        X = ser_simp({k: mm(inv, v, rr) for k, v in d.items()}, ctx)
        # det(1+X) = exp(tr log(1+X)) ; up to order 2
        tr = lambda q: einsum([(q, bl + ["i", "i"])], bl)
        L, term = {}, X
        for j in range(1, 10):
            if not term:
                break
            L = ser_add(L, {k: scale_by(tr(v), Fraction((-1) ** (j + 1), j)) for k, v in term.items()})
            term = ser_simp(ser_mm(term, X, rr, order), ctx)
        L = ser_simp(L, ctx)
        out, term, fact = {F0: ONE}, {F0: ONE}, F1
        for j in range(1, 10):
            term = ser_simp(ser_mul(term, L, order), ctx)
            if not term:
                break
            fact *= j
            out = ser_add(out, {k: scale_by(v, 1 / fact) for k, v in term.items()})
        return ser_simp({k: mul(v, ctx_det0) for k, v in out.items()}, ctx)
    if name == "lyap":
        sA = series(a.args[0], order, ctx, hook)
        sQ = series(a.args[1], order, ctx, hook)
        A0 = sA.get(F0, ZERO)
        out = {}
        pows = sorted({F0} | set(sA) | set(sQ))
        if order > 1:
            raise TNError("lyap series")
        L0 = lyap(A0, sQ.get(F0, ZERO), a.axes, ctx)
        if L0.t:
            out[F0] = L0
        A1 = sA.get(F1, ZERO)
        Q1 = sQ.get(F1, ZERO)
        if order >= 1:
            A1h = conj(transpose_last(A1, r))
            rhs = sub(sub(Q1, mm(A1, L0, r)), mm(L0, A1h, r))
            L1 = lyap(A0, ctx.simp(rhs), a.axes, ctx)
            if L1.t:
                out[F1] = L1
        return out
    if name == "bexpm":
        return bexpm_series(a, order, ctx, hook)
    if not a.args or not all(isinstance(x, Poly) for x in a.args):
        raise TNError("series of " + str(name))
    s = series(a.args[0], order, ctx, hook)
    A0 = ctx.simp(s.get(F0, ZERO))
    d = {k: v for k, v in s.items() if k > 0}
    if any(k < 0 for k in s):
        raise TNError("series: pole in matrix function")
    I = bc_eye(a.axes)
    if name == "inv":
        if not A0.t:
            raise TNError("series: singular inverse")
        if ctx.simp(sub(A0, I)).t == {}:
            inv = I
        else:
            inv = ctx.simp(mat_unary("inv", (A0,), a.axes))
        X = ser_simp({k: neg(mm(inv, v, r)) for k, v in d.items()}, ctx)
        out = {F0: I}
        term = {F0: I}
        for _ in range(8):
            term = ser_simp(ser_mm(term, X, r, order), ctx)
            if not term:
                break
            out = ser_add(out, term)
        return ser_simp({k: mm(v, inv, r) for k, v in out.items()}, ctx)
    if name == "expm":
        if A0.t:
            raise TNError("series of expm at a nonzero matrix")
        out = {F0: I}
        term = {F0: I}
        f = F1
        for m in range(1, 8):
            term = ser_simp(ser_mm(term, d, r, order), ctx)
            f *= m
            if not term:
                break
            out = ser_add(out, {k: scale_by(v, 1 / f) for k, v in term.items()})
        return out
    if name == "logm":
        if ctx.simp(sub(A0, I)).t:
            raise TNError("series of logm away from the identity")
        out = {}
        term = {F0: I}
        for m in range(1, 8):
            term = ser_simp(ser_mm(term, d, r, order), ctx)
            if not term:
                break
            out = ser_add(out, {k: scale_by(v, Fraction((-1) ** (m + 1), m)) for k, v in term.items()})
        return out
    if name == "polar":
        # A (A^H A)^{-1/2} around an orthonormal A0
        bl = ["b%d" % i for i in range(r - 2)]
        sh = {k: conj(v) for k, v in s.items()}
        G = {}
        for k, x in sh.items():
            for q, y in s.items():
                if k + q <= order:
                    G[k + q] = add(G.get(k + q, ZERO), einsum([(x, bl + ["i", "a"]), (y, bl + ["i", "b"])], bl + ["a", "b"]))
        G = ser_simp(G, ctx)
        Ip = from_atom(delta(a.axes[-1]), (r - 2, r - 1))
        S = ser_simp(ser_add(G, {F0: neg(Ip)}), ctx)
        if F0 in S:
            raise TNError("series of polar factor away from orthonormal")
        out = {F0: Ip}
        term = {F0: Ip}
        coef = F1
        q = Fraction(-1, 2)
        for m in range(1, 8):
            coef = coef * (q - m + 1) / m
            term = ser_simp(ser_mm(term, S, r, order), ctx)
            if not term:
                break
            out = ser_add(out, {k: scale_by(v, coef) for k, v in term.items()})
        return ser_simp(ser_mm(s, out, r, order), ctx)
    if name == "cqrQ":
        bl = ["b%d" % i for i in range(r - 2)]
        g = ctx.simp(einsum([(conj(A0), bl + ["i", "a"]), (A0, bl + ["i", "b"])], bl + ["a", "b"]))
        Ip = from_atom(delta(a.axes[-1]), (r - 2, r - 1))
        if ctx.simp(sub(g, Ip)).t:
            raise TNError("series of QR away from orthonormal")
        out = {F0: A0}
        if order >= 1:
            for k, v in d.items():
                if k > 1 or k < 1:
                    continue
                h = einsum([(conj(A0), bl + ["i", "a"]), (v, bl + ["i", "b"])], bl + ["a", "b"])
                hs = ctx.simp(add(h, conj(transpose_last(h, r))))
                if hs.t:
                    raise TNError("series of QR in a non-tangent direction")
                out[k] = v
        if order > 1:
            raise TNError("second-order series of QR")
        return out
    raise TNError("series of " + name)


_BEXP = {}


def bexpm_series(a, order, ctx, hook):
    """Entry of the exponential of a block matrix that is nilpotent at eps = 0."""
    i, j = a.args[:2]
    grid = a.args[2:]
    n = int(len(grid) ** 0.5)
    r = len(a.axes)
    key = (grid, order, id(ctx))
    res = _BEXP.get(key)
    if res is None:
        M = [[ser_simp(series(grid[p * n + q], order, ctx, hook), ctx) for q in range(n)] for p in range(n)]
        if any(k < 0 for row in M for s in row for k in s):
            raise TNError("series: pole in block exponential")
        term = [[({F0: None} if p == q else {}) for q in range(n)] for p in range(n)]
        res = [[{} for _ in range(n)] for _ in range(n)]
        first = True
        fact = F1
        for m in range(1, 12):
            if first:
                term, first = M, False
            else:
                term = [[ser_simp(_ser_sum([ser_mm(term[p][t], M[t][q], r, order) for t in range(n)]), ctx) for q in range(n)] for p in range(n)]
            fact *= m
            if not any(s for row in term for s in row):
                break
            res = [[ser_add(res[p][q], {k: scale_by(v, 1 / fact) for k, v in term[p][q].items()}) for q in range(n)] for p in range(n)]
        else:
            raise TNError("series: block exponential is not nilpotent at zero")
        _BEXP[key] = res
    out = dict(res[i][j])
    if i == j:
        out = ser_add(out, {F0: bc_eye(a.axes)})
    return ser_simp(out, ctx)


def _ser_sum(l):
    out = {}
    for s in l:
        out = ser_add(out, s)
    return out


def lyap(A, Q, axes, ctx):
    """Solution of A L + L A^H = Q; linear in Q."""
    Q = ctx.simp(Q)
    if not Q.t:
        return ZERO
    A = ctx.simp(A)
    out = ZERO
    for mono, c in Q.t.items():
        core, scal = _split_scalar(mono)
        part = mat_unary("lyap", (A, Poly({core: F1})), axes)
        sc = {}
        _norm(_rename(scal, None), c, sc, {})
        out = add(out, mul(Poly(sc), part))
    return out


def _split_scalar(mono):
    """(factors connected to a free label, fully contracted factors)."""
    groups = []
    for f in mono:
        ls = set(f[1])
        hit = [g for g in groups if g[0] & ls]
        for g in hit:
            groups.remove(g)
        groups.append((set.union(ls, *[g[0] for g in hit]), sum((g[1] for g in hit), []) + [f]))
    core, scal = [], []
    for ls, fs in groups:
        (core if any(i >= 0 for i in ls) else scal).extend(fs)
    order = {id(f): k for k, f in enumerate(mono)}
    core.sort(key=lambda f: order[id(f)])
    scal.sort(key=lambda f: order[id(f)])
    tmp = {}
    _norm(_rename(tuple(core), None), F1, tmp, {})
    if len(tmp) != 1 or next(iter(tmp.values())) != 1:
        raise TNError("lyapunov right-hand side")
    return next(iter(tmp)), tuple(scal)


# -------------------------------------------------------------- substitution


def subst(p, m, ctx=None):
    """Replace symbol atoms: m: atom -> Poly (in the atom's own frame).
    Conjugate symbols are replaced consistently."""
    memo = {}
    return _subst(p, m, memo)


def _subst(p, m, memo):
    if p in memo:
        return memo[p]
    out = {}
    for mono, c in p.t.items():
        acc = [(c, [])]
        fs = _rename(mono, None)
        bd = bound_dims(fs)
        for a, idx, e in fs:
            q = _subst_atom(a, m, memo)
            if q is None:
                acc = [(x, y + [(a, idx, e)]) for x, y in acc]
                continue
            if Fraction(e).denominator != 1 or e < 0:
                q = power(q, e)
                e = 1
            lab = {k: i for k, i in enumerate(idx)}
            for _ in range(int(e)):
                acc = [(x * v, y + _rename(mm_, lab)) for x, y in acc for mm_, v in q.t.items()]
        for x, y in acc:
            _norm(y, x, out, bd)
    r = Poly(out)
    memo[p] = r
    return r


def _subst_atom(a, m, memo):
    if a in m:
        return m[a]
    if a.kind == "sym":
        if "c" in a.flags:
            b = atom("sym", a.name, a.args, a.axes, a.flags ^ {"conj"})
            if b in m:
                return conj(m[b])
        return None
    if a.kind in ("pw", "fn", "mat") and a.args:
        args = tuple(_subst(x, m, memo) if isinstance(x, Poly) else x for x in a.args)
        if args == a.args:
            return None
        if a.kind == "pw":
            raise TNError("subst under power with exponent")  # handled by caller
        if a.kind == "fn":
            return fn(a.name, args[0])
        if a.name in ("inv", "expm", "logm", "det", "lyap"):
            return mat_unary(a.name, args, a.axes, a.flags - {"symm"})
        return from_atom(atom("mat", a.name, args, a.axes, a.flags))
    return None
