"""Evaluate value-graph terms at a witness (used to confirm a refuted
equality of two value graphs; never executes the analysed program)."""
import numpy as np
import scipy.linalg
import scipy.special

from .terms import Term


class NumError(Exception):
    pass


class NumRaises(NumError):
    """NumPy rejects the operation (shapes, axes or indices do not fit)."""


class Num:
    def __init__(self, env, rng, decide=None):
        self.env = dict(env)
        self.memo = {}
        self.rng = rng
        self.rnd = {}
        self.decide = decide

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            if t in self.env:
                r = self.env[t]
            else:
                f = getattr(self, "t_" + t.op, None)
                if f is None:
                    raise NumError(t.op)
                with np.errstate(all="ignore"):
                    try:
                        r = f(*t.args)
                    except NumError:
                        raise
                    except (ValueError, IndexError) as e:
                        raise NumRaises(f"{t.op}: {e}")
                    except Exception as e:
                        raise NumError(f"{t.op}: {e}")
            self.memo[t] = r
        return r

    def t_const(self, c):
        from fractions import Fraction

        if isinstance(c, Fraction):
            return float(c)
        return c

    def t_sym(self, n):
        raise NumError(f"symbol {n}")

    def t_add(self, *a):
        r = self(a[0])
        for x in a[1:]:
            r = r + self(x)
        return r

    def t_mul(self, *a):
        r = self(a[0])
        for x in a[1:]:
            r = r * self(x)
        return r

    def t_sub(self, a, b):
        return self(a) - self(b)

    def t_neg(self, a):
        return -self(a)

    def t_div(self, a, b):
        x, y = self(a), self(b)
        return np.divide(x, y)

    def t_floordiv(self, a, b):
        return self(a) // self(b)

    def t_mod(self, a, b):
        return self(a) % self(b)

    def t_pow(self, a, b):
        x, y = self(a), self(b)
        if isinstance(x, int) and isinstance(y, int) and y < 0:
            return float(x) ** y
        return x**y

    def t_matmul(self, a, b):
        return self(a) @ self(b)

    def t_lt(self, a, b):
        return self(a) < self(b)

    def t_le(self, a, b):
        return self(a) <= self(b)

    def t_eq(self, a, b):
        x, y = self(a), self(b)
        return x == y

    def t_not(self, a):
        x = self(a)
        return ~x if isinstance(x, np.ndarray) else not x

    def t_and(self, *a):
        r = self(a[0])
        for x in a[1:]:
            r = np.logical_and(r, self(x))
        return r

    def t_or(self, *a):
        r = self(a[0])
        for x in a[1:]:
            r = np.logical_or(r, self(x))
        return r

    def t_truthy(self, a):
        return bool(np.all(self(a)))

    def t_is(self, a, b):
        return a is b

    def t_isnone(self, a):
        return False

    def t_isinstance(self, a, *c):
        raise NumError("isinstance")

    def t_ite(self, c, a, b):
        return self(a) if bool(self(c)) else self(b)

    def t_min2(self, *a):
        return min(self(x) for x in a)

    def t_max2(self, *a):
        return max(self(x) for x in a)

    def t_tuple(self, *a):
        return tuple(self.splat(a))

    def t_list(self, *a):
        return self.splat(a)

    def splat(self, a):
        out = []
        for x in a:
            if x.op == "star":
                out.extend(self(x.args[0]))
            else:
                out.append(self(x))
        return out

    def t_attr(self, b, name):
        if name == "eps":
            return np.finfo(np.float64).eps
        if name == "dtype" or name in ("shape", "ndim", "T", "real", "imag", "size"):
            return getattr(np.asarray(self(b)), name)
        raise NumError("attr " + name)

    def t_slice_obj(self, a, b, c):
        return slice(self(a), self(b), self(c))

    def t_extname(self, n):
        if n == "numpy.newaxis":
            return None
        if n in ("complex", "builtins.complex", "numpy.complex128"):
            return complex
        if n in ("float", "builtins.float", "numpy.float64"):
            return float
        if n in ("int", "builtins.int"):
            return int
        if n in ("bool", "builtins.bool"):
            return bool
        raise NumError(n)

    def t_select(self, b, i):
        return self(b)[self(i)]

    def t_getitem(self, b, i):
        return self(b)[self(i)]

    def t_slice(self, b, lo, hi, st):
        return self(b)[self(lo):self(hi):self(st)]

    def t_gather(self, b, i):
        return np.asarray(self(b))[self(i)]

    def t_range(self, a, b, c):
        return np.arange(self(a), self(b), self(c))

    def t_setitem(self, b, i, v):
        r = np.array(self(b))
        r[self(i)] = self(v)
        return r

    t_store = t_setitem

    def t_mcall(self, name, base, args, kw):
        b = np.asarray(self(base))
        if name in ("conj", "conjugate", "sum", "copy", "reshape", "trace", "dot", "transpose", "astype", "swapaxes", "squeeze", "ravel", "flatten", "diagonal", "clip", "item", "mean", "max", "min", "prod"):
            return getattr(b, name)(*[self(x) for x in args], **{k: self(v) for k, v in kw})
        raise NumError("method " + name)

    def t_npcall(self, name, args, kw):
        a = [self(x) for x in args]
        k = {n: self(v) for n, v in kw}
        if name == "min2":
            return min(a)
        if name == "max2":
            return max(a)
        if name in ("float", "int"):
            x = np.asarray(a[0])
            return float(x) if name == "float" else int(x)
        if name == "finfo":
            return np.finfo(a[0])
        if name == "array_":
            name = "asarray"
        if name.startswith(("scipy.", "math.")):
            return self.t_ext(name, args, kw)
        if name.startswith("random."):
            raise NumError(name)
        if name in ("vstack", "hstack", "block", "concatenate", "stack"):
            pass
        f = np
        for part in name.split("."):
            f = getattr(f, part, None)
            if f is None:
                raise NumError("numpy." + name)
        return f(*a, **k)

    def t_ext(self, name, args, kw):
        a = [self(x) for x in args]
        k = {n: self(v) for n, v in kw}
        if name in ("scipy.linalg.logm", "scipy.linalg.sqrtm") and a and np.ndim(a[0]) == 3:
            f = getattr(scipy.linalg, name.split(".")[-1])
            return np.stack([f(x) for x in a[0]])
        if name.startswith("scipy.linalg."):
            return getattr(scipy.linalg, name.split(".")[-1])(*a, **k)
        if name == "scipy.special.comb":
            return scipy.special.comb(*a, **k)
        if name == "math.sqrt":
            return np.sqrt(a[0])
        raise NumError(name)

    def t_random(self, name, fresh, args, kw):
        r = self.rnd.get(fresh)
        if r is None:
            a = [self(x) for x in args]
            k = {n: self(v) for n, v in kw}
            last = name.split(".")[-1]
            if last in ("rand", "randn"):
                a, last = [tuple(a)], {"rand": "random", "randn": "standard_normal"}[last]
            f = getattr(self.rng, {"random_sample": "random", "randint": "integers"}.get(last, last), None)
            if f is None:
                raise NumError(name)
            r = self.rnd[fresh] = f(*a, **k)
        return r

    def t_map(self, *a):
        raise NumError("map")

    def t_phi(self, *a):
        raise NumError("loop value")
