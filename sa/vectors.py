"""Vector classes of structured manifolds: operators NumPy and the built-in types get in the way of."""
from .values import Cls


def scalars(rep, key, cls, loc):
    """A NumPy scalar or zero-dimensional array on the left hands the operation over."""
    k = key("numpy-scalars", "tangent vector")
    known, v = cls.constant("__array_ufunc__")
    if known and v is None:
        rep.ok(k, "__array_ufunc__ is None", loc)
        return
    if known is None or known:
        rep.unk(k, "__array_ufunc__ is defined", loc)
        return
    known, v = cls.constant("__array_priority__")
    if known and isinstance(v, (int, float)) and not isinstance(v, bool):
        rep.verdict(k, v > 0, "__array_priority__ is %s, __array_ufunc__ is not defined" % v, loc)
    elif known is None:
        rep.unk(k, "__array_priority__ is computed", loc)
    else:
        rep.bad(k, "neither __array_ufunc__ = None nor __array_priority__: numpy multiplies the sequence as an array", loc)


def in_place(cls, op):
    """The augmented operator that applies to instances: a method, None (falls
    back to the plain operator) or the name of the built-in type whose own applies."""
    for c in cls.mro():
        if isinstance(c, Cls):
            n = "__i%s__" % op
            if n in c.ns:
                return c.ns[n]
        elif c.name.split(".")[-1] in ("list", "bytearray", "deque", "UserList", "MutableSequence"):
            return c.name.split(".")[-1]
    return None
