"""Small term-building vocabulary for specifications."""
from fractions import Fraction

from .terms import Term, const, mk, sym, Arith, Neg, NONE


def w(x):
    return x if isinstance(x, Term) else const(x)


def add(*a):
    r = w(a[0])
    for x in a[1:]:
        r = Arith("add", r, w(x))
    return r


def sub(a, b):
    return Arith("sub", w(a), w(b))


def neg(a):
    return Neg(w(a))


def mul(*a):
    r = w(a[0])
    for x in a[1:]:
        r = Arith("mul", r, w(x))
    return r


def div(a, b):
    return Arith("div", w(a), w(b))


def pw(a, n):
    return Arith("pow", w(a), w(n))


def mm(*a):
    r = w(a[0])
    for x in a[1:]:
        r = mk("matmul", r, w(x))
    return r


def np_(name, *a, **kw):
    return mk("npcall", name, tuple(w(x) for x in a), tuple(sorted((k, w(v)) for k, v in kw.items())))


def T(x):
    return np_("swapaxes", x, -1, -2)


def conj(x):
    return np_("conj", x)


def H(x):
    return conj(T(x))


def real(x):
    return np_("real", x)


def tsum(x):
    return np_("sum", x)


def eip(a, b):
    """Real part of the Frobenius inner product."""
    return real(tsum(mul(conj(a), b)))


def herm(x):
    return mul(0.5, add(x, H(x)))


def skew(x):
    return mul(0.5, sub(x, H(x)))


def eye(n):
    return np_("eye", n)


def sqrt(x):
    return np_("sqrt", x)


def norm(x):
    return sqrt(eip(x, x))


def ext(name, *a, **kw):
    return mk("ext", name, tuple(w(x) for x in a), tuple(sorted((k, w(v)) for k, v in kw.items())))


def col(x):
    return np_("expand_dims", x, -1)


def tup(*a):
    return mk("tuple", *[w(x) for x in a])


def keepsum(x, axis):
    return np_("sum", x, axis=axis, keepdims=True)


def trace(x):
    return np_("trace", x, axis1=-2, axis2=-1)


def solve(a, b):
    return np_("linalg.solve", a, b)
