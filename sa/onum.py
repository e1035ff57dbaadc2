"""Evaluation of optimizer value graphs at concrete valuations.

Used where two normal forms differ but contain operations whose laws the normal
forms do not know (minimum of a list, sorting, list updates).  Points and vectors
are modelled on the real line with smooth geometry, so that the laws the manifold
interface guarantees (linearity of the transport and the Hessian, symmetry of the
inner product and of the distance, retraction of zero) hold for the valuation.
A difference is reported only when it persists at several valuations.
"""
import hashlib
import math

from .opt_common import MANIFOLD, PROBLEM
from .terms import *


class Cannot(Exception):
    pass


N = 4


class ONum:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.hole = None

    def h(self, *key):
        d = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return 0.15 + 1.7 * int.from_bytes(d[:6], "big") / 2**48

    def smooth(self, name, x):
        return sum(self.h(name, i, "a") * math.sin((1 + 3 * self.h(name, i, "b")) * self.num(x) + 6 * self.h(name, i, "c")) for i in range(3))

    def weight(self, name, x):
        return 1.1 + self.h(name, "w") * (1 + 0.5 * math.tanh(self.smooth(name, x)))

    def num(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v
        raise Cannot("a number is needed")

    def seq(self, v, t=None):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, float) and t is not None and t.op in ("sym", "fresh"):
            return [self.h("el", t.tid, i) for i in range(N)]
        raise Cannot("a sequence is needed")

    def __call__(self, t):
        if self.hole is None and t in self.memo:
            return self.memo[t]
        f = getattr(self, "t_" + t.op, None)
        if f is None:
            raise Cannot(t.op)
        v = f(t)
        if self.hole is None:
            self.memo[t] = v
        return v

    # -- leaves
    def t_const(self, t):
        return t.args[0]

    def t_sym(self, t):
        return self.h("sym", t.args[0])

    def t_hole(self, t):
        if t is not hole() or self.hole is None:
            raise Cannot("hole")
        return self.hole

    def t_fresh(self, t):
        return self.h("fresh", *[self(a) if isinstance(a, Term) else a for a in t.args])

    def t_attr(self, t):
        if t.args[0] is MANIFOLD and t.args[1] in ("dim", "typical_dist"):
            return N - 1 if t.args[1] == "dim" else self.h("typical")
        if t.args[0].op == "sym":
            return self.h("attr", t.args[0].args[0], t.args[1])
        raise Cannot("attribute")

    # -- arithmetic
    def two(self, t, f):
        a, b = self.num(self(t.args[0])), self.num(self(t.args[1]))
        try:
            return f(a, b)
        except (ArithmeticError, ValueError):
            raise Cannot("arithmetic")

    def t_add(self, t):
        return self.two(t, lambda a, b: a + b)

    def t_mul(self, t):
        return self.two(t, lambda a, b: a * b)

    def t_div(self, t):
        return self.two(t, lambda a, b: a / b)

    def t_pow(self, t):
        def p(a, b):
            r = a**b
            if isinstance(r, complex):
                raise Cannot("complex")
            return r

        return self.two(t, p)

    def t_neg(self, t):
        return -self.num(self(t.args[0]))

    def t_lt(self, t):
        return self.two(t, lambda a, b: a < b)

    def t_le(self, t):
        return self.two(t, lambda a, b: a <= b)

    def t_slot(self, t):
        i = self.num(self(t.args[0]))
        return i + N if i < 0 else i

    def t_eq(self, t):
        a, b = self(t.args[0]), self(t.args[1])
        if isinstance(a, float) and isinstance(b, float):
            return abs(a - b) <= 1e-12 * (1 + abs(a))
        return a == b

    def t_not(self, t):
        return not self(t.args[0])

    def t_truthy(self, t):
        return bool(self(t.args[0]))

    def t_isnone(self, t):
        return self(t.args[0]) is None

    def t_and(self, t):
        return all([self(a) for a in t.args])

    def t_or(self, t):
        return any([self(a) for a in t.args])

    def t_ite(self, t):
        return self(t.args[1]) if self(t.args[0]) else self(t.args[2])

    # -- sequences
    def t_list(self, t):
        return [self(a) for a in t.args]

    t_tuple = t_list

    def t_append(self, t):
        return self.seq(self(t.args[0]), t.args[0]) + [self(t.args[1])]

    def t_range(self, t):
        a, b, c = (self(x) for x in t.args)
        if not all(isinstance(x, int) for x in (a, b, c)):
            raise Cannot("range")
        return list(range(a, b, c))

    def t_len(self, t):
        return len(self.seq(self(t.args[0]), t.args[0]))

    def index(self, i, n):
        i = self.num(i)
        if not isinstance(i, int) or isinstance(i, bool) or not -n <= i < n:
            raise Cannot("index")
        return i

    def t_select(self, t):
        s = self.seq(self(t.args[0]), t.args[0])
        return s[self.index(self(t.args[1]), len(s))]

    def t_store(self, t):
        s = self.seq(self(t.args[0]), t.args[0])
        s[self.index(self(t.args[1]), len(s))] = self(t.args[2])
        return s

    def t_gather(self, t):
        s = self.seq(self(t.args[0]), t.args[0])
        return [s[self.index(i, len(s))] for i in self.seq(self(t.args[1]))]

    def t_slice(self, t):
        s = self.seq(self(t.args[0]), t.args[0])
        i = [self(x) for x in t.args[1:]]
        if not all(x is None or isinstance(x, int) for x in i):
            raise Cannot("slice")
        return s[slice(*i)]

    def t_map(self, t):
        s = self.seq(self(t.args[1]), t.args[1])
        if self.hole is not None:
            raise Cannot("nested map")
        out = []
        try:
            for x in s:
                self.hole = x
                out.append(self(t.args[0]))
        finally:
            self.hole = None
        return out

    def t_zip(self, t):
        return [list(x) for x in zip(*[self.seq(self(a), a) for a in t.args])]

    # -- functions
    def reduce(self, name, s):
        s = [self.num(x) for x in s]
        if not s:
            raise Cannot("empty")
        if name in ("min", "amin"):
            return min(s)
        if name in ("max", "amax"):
            return max(s)
        if name == "sum":
            return sum(s)
        if name == "mean":
            return sum(s) / len(s)
        if name == "argmin":
            return s.index(min(s))
        if name == "argmax":
            return s.index(max(s))
        if name == "argsort":
            return sorted(range(len(s)), key=lambda i: s[i])
        if name == "sort" or name == "sorted":
            return sorted(s)
        raise Cannot(name)

    def t_npcall(self, t):
        name, args, kw = t.args[0], t.args[1], t.args[2] if len(t.args) > 2 else ()
        if kw:
            raise Cannot("keywords")
        v = [self(a) for a in args]
        if name in ("min2", "minimum", "fmin"):
            return min(self.num(v[0]), self.num(v[1]))
        if name in ("max2", "maximum", "fmax"):
            return max(self.num(v[0]), self.num(v[1]))
        if len(v) != 1:
            raise Cannot(name)
        x = v[0]
        if name in ("array", "asarray", "list"):
            return x
        if name in ("float", "int"):
            return type(1.0)(x) if name == "float" else int(self.num(x))
        if name in ("abs", "absolute", "fabs"):
            return abs(self.num(x))
        if name == "sqrt":
            if self.num(x) < 0:
                raise Cannot("sqrt")
            return math.sqrt(x)
        if name in ("isnan", "isinf"):
            return False
        if name == "isfinite":
            return True
        return self.reduce(name, self.seq(x, args[0]))

    def red1(self, t):
        if len(t.args) == 1:
            return self.reduce(t.op, self.seq(self(t.args[0]), t.args[0]))
        return (min if t.op == "min" else max if t.op == "max" else sum)([self.num(self(a)) for a in t.args])

    t_min = t_max = t_sum = red1

    def t_mcall(self, t):
        name, base, args, kw = t.args
        if kw:
            raise Cannot("keywords")
        if base is PROBLEM:
            v = [self.num(self(a)) for a in args]
            if name in ("cost", "riemannian_gradient") and len(v) == 1:
                return self.smooth(name, v[0])
            if name in ("riemannian_hessian", "preconditioner") and len(v) == 2:
                return self.weight(name, v[0]) * v[1]
        elif base is MANIFOLD:
            v = [self.num(self(a)) for a in args]
            if name == "inner_product" and len(v) == 3:
                return self.weight("g", v[0]) * v[1] * v[2]
            if name == "norm" and len(v) == 2:
                return math.sqrt(self.weight("g", v[0])) * abs(v[1])
            if name == "zero_vector":
                return 0.0
            if name in ("retraction", "exp") and len(v) == 2:
                return v[0] + v[1] * self.weight("exp", v[0])
            if name == "log" and len(v) == 2:
                return (v[1] - v[0]) / self.weight("exp", v[0])
            if name == "transport" and len(v) == 3:
                return v[2] * self.weight("t", v[0]) / self.weight("t", v[1])
            if name == "dist" and len(v) == 2:
                return abs(v[0] - v[1])
            if name == "pair_mean" and len(v) == 2:
                return (v[0] + v[1]) / 2
            if name in ("projection", "to_tangent_space") and len(v) == 2:
                return v[1]
        elif not args:
            return self.reduce(name, self.seq(self(base), base))
        raise Cannot("method " + str(name))


def refute(a, b, assume=(), seeds=60, need=3):
    """A valuation, satisfying the assumptions, at which the two values differ."""
    bad = 0
    for s in range(seeds):
        ev = ONum(s)
        try:
            if not all(ev(c) for c in assume):
                continue
            x, y = ev(a), ev(b)
        except (Cannot, RecursionError, OverflowError, TypeError, ValueError, ZeroDivisionError):
            continue
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
                bad += 1
        else:
            return None
        if bad >= need:
            return f"{x:.6g} against {y:.6g} at a valuation"
    return None
