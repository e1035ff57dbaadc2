"""C18: all automatic differentiation backends compute the same derivatives."""
import itertools
import math

from ..opt_common import *
from ..opt import OptHooks, fresh_interp, entry_node
from ..interp import StarVal
from ..problems import result
from .. import opt_common as oc

RULE = (
    "The operators every backend generates are executed abstractly on symbolic arguments and vectors for every number of arguments up to the "
    "bound and every pattern of dependence (which arguments the cost depends on, which components of the gradient depend on which argument).  "
    "The primitives of the libraries (grad, jvp, backward, GradientTape, ForwardAccumulator, tensordot, conj ...) are given their meaning on a "
    "domain of derivative symbols; obligation: the j-th result is the j-th component of the Euclidean gradient, respectively of its "
    "directional derivative along all vectors, unconjugated, as a NumPy array, and a zero of the shape of the j-th argument without dependence.  "
    "Where an array is wrapped without a copy by a library that refuses negative strides, the condition of the branch is decided for every sign pattern of strides."
)
FLOOR = 150
BASE = "pymanopt.autodiff.backends"
COSTF = sym("costfunction")


class Refused(Exception):
    pass


def num_(n):
    return const(n)


class AD(OptHooks):
    """Meaning of the differentiation libraries."""

    def __init__(self, program, n, dep, rel):
        OptHooks.__init__(self, program)
        self.n, self.dep, self.rel = n, dep, rel
        self.unsure = []
        self.errors = []
        self.req = set()
        self.grads = {}
        self.fns = {}
        self.tapes = {}
        self.accs = {}
        self.active = []
        self.snap = {}
        self.layouts = []
        self.count = 0

    def new(self):
        self.count += 1
        return const(self.count)

    def doubt(self, what):
        self.unsure.append(what)
        return None

    # -- values -------------------------------------------------------------

    def items(self, it, st, v):
        v = it.resolve(v, st)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = st.heap[v.addr]
            x = getattr(o, "items", None)
            if x is not None and o.kind in ("list", "inst"):
                return list(x)
        t = it.term(v, st)
        if t.op in ("list", "tuple"):
            return [Val(a) for a in t.args]
        if t.op == "range" and all(a.op == "const" for a in t.args):
            return [Val(const(i)) for i in range(*[a.args[0] for a in t.args])]
        return None

    def seq(self, it, st, ts, tup=False):
        vs = [Val(t) for t in ts]
        return Tup(vs) if tup else it.alloc(st, ListObj(vs, None, frozenset()))

    @staticmethod
    def strip(t):
        """Payload of a tensor."""
        while t.op == "tensor":
            t = t.args[1]
        if t.op == "ite":
            a, b = AD.strip(t.args[1]), AD.strip(t.args[2])
            if a is b:
                return a
        if t.op == "own":
            return AD.strip(t.args[0])
        return t

    def wrap(self, lib, p):
        if lib is None:
            return p
        return mk("tensor", lib, p, self.new())

    @staticmethod
    def lib(t):
        return t.args[0] if t.op == "tensor" else None

    def owned(self, t):
        return contains(t, lambda s: s.op in ("tensor", "G", "H", "C", "S", "Z"))

    # -- scalars ------------------------------------------------------------

    def parse(self, t):
        """Items of a sum of products <gradient, vector>, or None."""
        t = self.strip(t)
        if t.op == "S":
            return list(t.args)
        if t.op == "const" and t.args[0] in (0, 0.0):
            return []
        if t.op == "zeros0":
            return []
        if t.op == "add":
            r = []
            for a in t.args:
                p = self.parse(a)
                if p is None:
                    return None
                r += p
            return r
        if t.op in ("list", "tuple"):
            r = []
            for a in t.args:
                p = self.parse(a)
                if p is None:
                    return None
                r += p
            return r
        return None

    def conjed(self, t):
        """Complex conjugate."""
        if t.op == "tensor":
            return mk("tensor", t.args[0], self.conjed(t.args[1]), self.new())
        if t.op == "G":
            return mk("G", t.args[0], const(not t.args[1].args[0]), *t.args[2:])
        if t.op == "H":
            return mk("H", t.args[0], const(not t.args[1].args[0]), *t.args[2:])
        if t.op == "Z":
            return t
        if t.op == "conjugate":
            return t.args[0]
        return mk("conjugate", t)

    def dot(self, a, b):
        """Bilinear product of two arrays summed over all entries."""
        a, b = self.strip(a), self.strip(b)
        if a.op == "Z" or b.op == "Z":
            return mk("S")
        if b.op == "G":
            a, b = b, a
        if a.op == "G" and b.op == "G":
            return mk("S", mk("item", a, b, const("product of gradients")))
        if a.op != "G" or self.owned(b):
            return None
        return mk("S", mk("item", a, b, FALSE))

    def realed(self, t):
        p = self.parse(t)
        if p is None:
            return None
        out = []
        for i in p:
            g, v, r = i.args
            if v.op == "conjugate":
                g, v = self.conjed(g), v.args[0]
            out.append(mk("item", g, v, TRUE if r in (TRUE, FALSE) else r))
        return mk("S", *out)

    def spoiled(self, t, how):
        """A sum of products after an operation that is not the real part."""
        p = self.parse(t)
        if p is None:
            return None
        return mk("S", *[mk("item", i.args[0], i.args[1], const(how)) for i in p])

    # -- derivatives ----------------------------------------------------------

    def position(self, point, target):
        js = [j for j, p in enumerate(point) if p is target]
        if not js:
            js = [j for j, p in enumerate(point) if self.strip(p) is self.strip(target) and target.op != "tensor"]
        return js[0] if len(js) == 1 else None

    def derive(self, s, target, conj, graph=None, acc=()):
        """Derivative of the scalar s with respect to one array; NONE: no dependence; None: not known."""
        u = self.strip(s)
        if u.op == "C":
            j = self.position(u.args[0].args, target)
            if j is None or j not in self.dep:
                return NONE
            return mk("G", const(j), const(conj), u.args[0], graph if graph is not None else TRUE, mk("accs", *sorted(acc, key=lambda a: a.tid)), u.args[1])
        p = self.parse(s)
        if p is None:
            return None
        parts = []
        point = None
        jj = None
        for i in p:
            g, v, real = i.args
            if g.args[3] is FALSE:
                continue
            j = self.position(g.args[2].args, target)
            if j is None:
                continue
            i0 = g.args[0].args[0]
            if (min(i0, j), max(i0, j)) not in self.rel:
                continue
            good = g.args[1] is TRUE and real is TRUE
            parts.append(mk("part", const(i0), v, const(good)))
            if point is not None and point is not g.args[2]:
                return None
            point, jj = g.args[2], j
        if not parts:
            return NONE
        return mk("H", const(jj), const(conj), point, mk("parts", *sorted(parts, key=lambda x: x.tid)))

    def along(self, g, primals, tangents):
        """Derivative of a component of the gradient along tangents."""
        g_ = self.strip(g)
        if g_.op == "Z":
            return NONE
        if g_.op != "G":
            return None
        parts = []
        i0 = g_.args[0].args[0]
        pt = g_.args[2].args
        for p, v in zip(primals, tangents):
            k = self.position(pt, p)
            if k is None or (min(i0, k), max(i0, k)) not in self.rel:
                continue
            parts.append(mk("part", const(k), self.strip(v), TRUE))
        if not parts:
            return NONE
        return mk("H", g_.args[0], g_.args[1], g_.args[2], mk("parts", *sorted(parts, key=lambda x: x.tid)))

    # -- hooks ---------------------------------------------------------------

    def kind(self, t):
        if t.op in ("tensor", "G", "H", "Z"):
            return "array"
        return OptHooks.kind(self, t)

    def call_(self, it, st, ft, args, kwargs, node):
        if ft is COSTF:
            ts = it.arg_terms(args, st)
            if kwargs:
                return self.doubt("keyword arguments of the cost")
            lib = next((self.lib(t) for t in ts if t.op == "tensor"), None)
            c = self.new()
            self.snap[c] = (dict((k, set(v)) for k, v in self.tapes.items()), list(self.active), set(self.req))
            return Val(self.wrap(lib, mk("C", mk("tuple", *ts), c)))
        if ft.op == "gradfn":
            return self.gradient_call(it, st, ft, args, kwargs, node)
        return None

    def gradient_call(self, it, st, ft, args, kwargs, node):
        lib, f, nums, single = self.fns[ft.args[0]]
        if kwargs:
            return self.doubt("keyword arguments of a gradient")
        s = it.term(it.call(f, args, {}, st, node), st)
        out = []
        for k in nums:
            if not 0 <= k < len(args):
                self.errors.append("argument index out of range")
                raise Dead()
            target = it.term(args[k], st)
            d = self.derive(s, target, True)
            if d is None:
                return self.doubt("gradient of " + show(s, 4))
            out.append(self.wrap("jax" if lib == "jax" else None, mk("Z", self.strip(target)) if d is NONE else d))
        if single:
            return Val(out[0])
        return self.seq(it, st, out, tup=lib == "jax")

    def argnums(self, it, st, v):
        if v is None:
            return [0], True
        t = it.term(v, st)
        if t.op == "const" and isinstance(t.args[0], int):
            return [t.args[0]], True
        xs = self.items(it, st, v)
        if xs is None:
            return None, None
        ts = [it.term(x, st) for x in xs]
        if any(t.op != "const" for t in ts):
            return None, None
        return [t.args[0] for t in ts], False

    def ext_call(self, it, st, name, args, kwargs, node):
        parts = name.split(".")
        root = parts[0]
        last = parts[-1]
        if name.startswith("autograd.") and not name.startswith("autograd.numpy"):
            if name in ("autograd.grad",) or last == "grad" and parts[:2] == ["autograd", "differential_operators"]:
                kw = dict(kwargs)
                nums, single = self.argnums(it, st, args[1] if len(args) > 1 else kw.pop("argnum", None))
                if nums is None or kw:
                    return self.doubt(name)
                if not nums:
                    single = False
                k = self.new()
                self.fns[k] = ("autograd", args[0], nums, single)
                return Val(mk("gradfn", k))
            return self.doubt(name)
        if root == "jax" and not name.startswith("jax.numpy"):
            return self.jax(it, st, name, args, kwargs, node)
        if root == "torch":
            return self.torch(it, st, name, args, kwargs, node)
        if root in ("tensorflow", "tf"):
            return self.tensorflow(it, st, name, args, kwargs, node)
        if root in ("numpy", "jax", "autograd") or name.startswith(("autograd.numpy", "jax.numpy", "np.")):
            return self.numpy(it, st, last, args, kwargs, node, "jax" if root == "jax" else None)
        return None

    def numpy(self, it, st, n, args, kwargs, node, lib=None):
        ts = [it.term(a, st) for a in args if not isinstance(a, StarVal)]
        kw = {k: it.term(v, st) for k, v in kwargs.items()}
        if n in ("array", "ascontiguousarray", "copy") and len(ts) == 1 and lib is None and not kw and (ts[0].op == "own" or ts[0].op == "sym" and ts[0].args[0][0] in "xv"):
            return Val(mk("own", self.strip(ts[0])))
        if not any(self.owned(t) for t in ts + list(kw.values())) and n not in ("zeros_like", "zeros"):
            return None
        r = self.common(n, ts, kw, lib)
        if r is not None:
            return Val(r)
        if n in ("asarray", "array", "ascontiguousarray") and len(ts) == 1 and lib is None and set(kw) <= {"dtype"} and kw.get("dtype", NONE) is NONE:
            return Val(self.strip(ts[0]) if ts[0].op == "tensor" else ts[0])
        if n in ("asarray", "array") and len(ts) == 1 and lib == "jax":
            return Val(ts[0] if ts[0].op == "tensor" else self.wrap("jax", ts[0]))
        if n == "zeros" and ts and ts[0].op == "attr" and ts[0].args[1] == "shape" and set(kw) <= {"dtype"}:
            z = mk("Z", self.like(ts[0].args[0]))
            return Val(self.wrap(lib, z) if lib else z)
        if n in ("any", "all", "shape", "ndim", "isnan", "iscomplexobj"):
            return None
        if not any(self.owned(t) for t in ts + list(kw.values())):
            return None
        return self.doubt(f"numpy.{n}")

    def common(self, n, ts, kw, lib):
        if n in ("conj", "conjugate") and len(ts) == 1 and not kw:
            return self.conjed(ts[0])
        if n == "zeros_like" and len(ts) == 1 and not kw:
            z = mk("Z", self.like(ts[0]))
            return self.wrap(lib, z) if lib else z
        if n in ("real",) and len(ts) == 1 and not kw:
            return self.realed(ts[0])
        if n == "tensordot":
            ax = ts[2] if len(ts) > 2 else kw.get("axes", kw.get("dims"))
            if len(ts) >= 2 and ax is not None and ax.op == "ndim" and set(kw) <= {"axes", "dims"}:
                return self.dot(ts[0], ts[1])
            return None
        if n in ("abs", "absolute", "imag") and len(ts) == 1 and not kw:
            return self.spoiled(ts[0], n)
        if n in ("mean", "reduce_mean") and len(ts) == 1 and not kw:
            u = self.strip(ts[0])
            if u.op in ("list", "tuple"):
                r = self.common("sum", ts, kw, lib)
                return r if r is None or len(u.args) == 1 else self.spoiled(r, "mean")
            if u.op == "mul":
                r = self.dot(*u.args)
                return None if r is None else self.spoiled(r, "mean")
            return None
        if n == "vdot" and len(ts) == 2 and not kw:
            return self.dot(self.conjed(ts[0]), ts[1])
        if n in ("sum", "reduce_sum", "add_n", "add") and ts and not kw:
            t = ts[0]
            if len(ts) == 1:
                u = self.strip(t)
                if u.op == "mul":
                    return self.dot(u.args[0], u.args[1])
                if u.op in ("add", "list", "tuple"):
                    xs = u.args if u.op != "add" else [u]
                    out = []
                    for x in xs:
                        p = self.parse(x)
                        if p is None and self.strip(x).op == "mul":
                            d = self.dot(*self.strip(x).args)
                            p = None if d is None else list(d.args)
                        if p is None:
                            return None
                        out += p
                    return mk("S", *out)
                if u.op == "S":
                    return u
            elif n == "add" and len(ts) == 2:
                p, q = self.parse(ts[0]), self.parse(ts[1])
                if p is not None and q is not None:
                    return mk("S", *(p + q))
            return None
        if n in ("multiply",) and len(ts) == 2:
            return mk("mul", ts[0], ts[1])
        return None

    def like(self, t):
        """The array whose shape counts."""
        t = self.strip(t)
        if t.op in ("Z",):
            return t.args[0]
        if t.op in ("G", "H"):
            return self.strip(t.args[2].args[t.args[0].args[0]])
        return t

    def jax(self, it, st, name, args, kwargs, node):
        kw = dict(kwargs)
        if name in ("jax.grad",):
            nums, single = self.argnums(it, st, args[1] if len(args) > 1 else kw.pop("argnums", None))
            if nums is None or kw:
                return self.doubt(name)
            k = self.new()
            self.fns[k] = ("jax", args[0], nums, single)
            return Val(mk("gradfn", k))
        if name in ("jax.jvp",) and len(args) + len(kw) == 3:
            f = args[0] if args else kw["fun"]
            pr = args[1] if len(args) > 1 else kw.get("primals")
            ta = args[2] if len(args) > 2 else kw.get("tangents")
            primals, tangents = self.items(it, st, pr), self.items(it, st, ta)
            if primals is None or tangents is None:
                return self.doubt("jax.jvp")
            v = it.call(f, primals, {}, st, node)
            xs = self.items(it, st, v)
            many = xs is not None
            xs = xs if many else [v]
            P = [it.term(p, st) for p in primals]
            T = [it.term(p, st) for p in tangents]
            out = []
            for x in xs:
                t = it.term(x, st)
                d = self.along(t, P, T)
                if d is None:
                    return self.doubt("jax.jvp of " + show(t, 4))
                out.append(self.wrap("jax", mk("Z", self.like(t)) if d is NONE else d))
            return Tup([v, self.seq(it, st, out, tup=True) if many else Val(out[0])])
        if name in ("jax.jit",) and len(args) == 1 and not kw:
            return args[0]
        return self.doubt(name)

    # -- torch --------------------------------------------------------------

    def torch(self, it, st, name, args, kwargs, node):
        n = name.split(".", 1)[1]
        ts = [it.term(a, st) for a in args if not isinstance(a, StarVal)]
        kw = {k: it.term(v, st) for k, v in kwargs.items()}
        if n in ("from_numpy", "tensor", "as_tensor", "asarray") and len(ts) == 1 and not kw:
            t = self.strip(ts[0])
            if n != "tensor":
                self.layouts.append((t, ts[0], tuple(st.pc)))
            return Val(self.wrap("torch", t))
        if n == "zeros" and ts and ts[0].op in ("tuple", "list") and not ts[0].args:
            return Val(self.wrap("torch", mk("zeros0")))
        if n == "zeros_like" and len(ts) == 1 and not kw:
            return Val(self.wrap("torch", mk("Z", self.like(ts[0]))))
        if n == "autograd.grad":
            if len(args) < 2:
                return self.doubt(name)
            graph = kw.get("create_graph", FALSE)
            allow = kw.get("allow_unused", FALSE)
            if set(kw) - {"create_graph", "allow_unused", "retain_graph", "materialize_grads"}:
                return self.doubt(name)
            mat = kw.get("materialize_grads", FALSE)
            xs = self.items(it, st, args[1])
            src = [it.term(x, st) for x in xs] if xs is not None else [ts[1]]
            out = []
            for s in src:
                if s not in self.req:
                    self.errors.append("One of the differentiated Tensors does not require grad")
                    raise Dead()
                d = self.derive(ts[0], s, False, graph)
                if d is None:
                    return self.doubt("torch.autograd.grad of " + show(ts[0], 4))
                if d is NONE and mat is TRUE:
                    d = mk("Z", self.strip(s))
                if d is NONE and allow is not TRUE:
                    self.errors.append("One of the differentiated Tensors appears to not have been used in the graph")
                    raise Dead()
                out.append(NONE if d is NONE else self.wrap("torch", d))
            return self.seq(it, st, out, tup=True)
        r = self.common(n, ts, kw, None)
        if r is not None:
            return Val(self.wrap("torch", self.strip(r)) if r.op != "tensor" else r)
        return self.doubt(name)

    def requires(self, t):
        if t in self.req:
            return True
        u = self.strip(t)
        if u.op == "C":
            return any(p in self.req for j, p in enumerate(u.args[0].args) if j in self.dep)
        p = self.parse(t)
        if p is None:
            return None
        for i in p:
            g = i.args[0]
            if g.args[3] is not TRUE:
                continue
            for j, q in enumerate(g.args[2].args):
                a, b = sorted((g.args[0].args[0], j))
                if q in self.req and (a, b) in self.rel:
                    return True
        return False

    def leaves(self, t):
        u = self.strip(t)
        if u.op == "C":
            return u.args[0].args
        p = self.parse(t)
        if p is None:
            return None
        out = []
        for i in p:
            for q in i.args[0].args[2].args:
                if q not in out:
                    out.append(q)
        return out

    def mcall(self, it, st, base, name, args, kwargs, node):
        t = base.term
        if t is NONE:
            self.errors.append(f"None has no attribute {name}")
            raise Dead()
        if t.op == "tape":
            return self.tape(it, st, t, name, args, kwargs)
        if t.op == "acc":
            return self.accumulator(it, st, t, name, args, kwargs)
        if t.op in ("tensor", "G", "H", "Z", "C", "S") or t.op == "add" and self.owned(t):
            lib = self.lib(t)
            if name in ("numpy",) and not args:
                if lib is None and t.op != "add":
                    return self.doubt("numpy() of an array")
                if lib == "torch" and self.requires(t):
                    self.errors.append("numpy() of a tensor that requires grad")
                    raise Dead()
                return Val(self.strip(t))
            if name in ("conj", "conjugate") and not args:
                return Val(self.conjed(t))
            if name in ("detach", "cpu", "contiguous", "clone", "resolve_conj") and lib == "torch" and not args:
                return Val(mk("tensor", "torch", t.args[1], self.new()) if name == "detach" else t)
            if name == "requires_grad_" and lib == "torch":
                self.req.add(t)
                return Val(t)
            if name == "backward":
                ls = self.leaves(t)
                if ls is None or args or kwargs:
                    return self.doubt("backward of " + show(t, 4))
                if not self.requires(t):
                    self.errors.append("backward of a tensor that does not require grad")
                    raise Dead()
                for q in ls:
                    if q not in self.req:
                        continue
                    d = self.derive(t, q, False)
                    if d is None:
                        return self.doubt("backward of " + show(t, 4))
                    if d is not NONE:
                        old = self.grads.get(q)
                        self.grads[q] = d if old is None else mk("accumulated", old, d)
                return Val(NONE)
            if name in ("real",) and not args:
                return None
            if name in ("sum",) and not args and not kwargs:
                r = self.common("sum", [t], {}, None)
                if r is not None:
                    return Val(r)
            if name in ("abs", "absolute", "mean") and not args and not kwargs:
                r = self.common(name, [t], {}, None)
                if r is not None:
                    return Val(self.wrap(lib, r))
            if name in ("dim",) and not args:
                return Val(mk("ndim", self.like(t)))
            if name in ("copy",):
                return Val(t)
            return self.doubt(f"{lib} method {name}")
        if t.op == "sym" and t.args[0][0] in "xv" and name == "copy":
            return Val(mk("own", t))
        return OptHooks.mcall(self, it, st, base, name, args, kwargs, node)

    def attr(self, it, st, base, name):
        t = base.term
        if t.op in ("tape", "acc"):
            return None
        owned = t.op in ("tensor", "G", "H", "Z", "S", "C") or t.op == "add" and self.owned(t)
        if name == "ndim" and (owned or t.op == "sym"):
            return Val(mk("ndim", self.like(t)))
        if not owned:
            return None
        if name == "grad" and self.lib(t) == "torch":
            g = self.grads.get(t)
            return Val(NONE if g is None else self.wrap("torch", g))
        if name == "requires_grad":
            r = self.requires(t)
            if r is None:
                return self.doubt("requires_grad of " + show(t, 4))
            return Val(const(bool(r)))
        if name == "real":
            r = self.realed(t)
            if r is not None:
                return Val(r)
            return self.doubt("real part of " + show(t, 4))
        if name == "imag" and self.parse(t) is not None:
            return Val(self.wrap(self.lib(t), self.spoiled(t, "imag")))
        if name in ("shape", "dtype"):
            return None
        return None

    # -- tensorflow ------------------------------------------------------------

    def tensorflow(self, it, st, name, args, kwargs, node):
        n = name.split(".", 1)[1]
        ts = [it.term(a, st) for a in args if not isinstance(a, StarVal)]
        kw = {k: it.term(v, st) for k, v in kwargs.items()}
        if n in ("constant", "convert_to_tensor", "Variable") and len(ts) == 1 and not kw:
            t = self.wrap("tf", self.strip(ts[0]))
            if n == "Variable":
                return self.doubt(name)
            return Val(t)
        if n == "GradientTape":
            if set(kw) - {"persistent", "watch_accessed_variables"}:
                return self.doubt(name)
            t = mk("tape", self.new())
            self.tapes[t] = set()
            return Val(t)
        if n == "autodiff.ForwardAccumulator":
            pr = args[0] if args else kwargs.get("primals")
            ta = args[1] if len(args) > 1 else kwargs.get("tangents")
            P, T = (self.items(it, st, q) if q is not None else None for q in (pr, ta))
            if P is None or T is None:
                return self.doubt(name)
            a = mk("acc", self.new())
            self.accs[a] = ([it.term(p, st) for p in P], [it.term(q, st) for q in T])
            return Val(a)
        if n in ("zeros_like",) and len(ts) == 1 and not kw:
            return Val(self.wrap("tf", mk("Z", self.like(ts[0]))))
        short = n.split(".")[-1]
        r = self.common(short, ts, kw, None)
        if r is not None:
            return Val(self.wrap("tf", self.strip(r)) if r.op != "tensor" else r)
        return self.doubt(name)

    def with_(self, it, st, value, enter):
        t = it.term(value, st)
        if t.op in ("tape", "acc"):
            if enter:
                self.active.append(t)
            elif t in self.active:
                self.active.remove(t)
        else:
            self.doubt("context manager " + show(t, 3))

    def tape(self, it, st, t, name, args, kwargs):
        kw = dict(kwargs)
        if name == "watch" and args:
            xs = self.items(it, st, args[0])
            for x in xs if xs is not None else [args[0]]:
                self.tapes[t].add(it.term(x, st))
            if t not in self.active:
                self.tapes[t] = set()
            return Val(NONE)
        if name == "gradient":
            tg = args[0] if args else kw.pop("target", None)
            sv = args[1] if len(args) > 1 else kw.pop("sources", None)
            un = kw.pop("unconnected_gradients", None)
            if tg is None or sv is None or kw or un is not None:
                return self.doubt("options of tape.gradient")
            s = it.term(tg, st)
            xs = self.items(it, st, sv)
            src = [it.term(x, st) for x in xs] if xs is not None else [it.term(sv, st)]
            out = []
            u = self.strip(s)
            if u.op == "C":
                watched, active, _ = self.snap[u.args[1]]
                now = set(self.active)
                # what sees the computation of the gradient itself
                acc = [a for a in active if a.op == "acc" and a in now]
                graph = mk("seen", *sorted([a for a in active if a.op == "tape" and a in now and a is not t], key=lambda a: a.tid))
                for x in src:
                    if t not in active or x not in watched.get(t, ()):
                        out.append(NONE)
                        continue
                    d = self.derive(s, x, False, graph, acc)
                    out.append(NONE if d is NONE else self.wrap("tf", d))
            else:
                p = self.parse(s)
                if p is None:
                    return self.doubt("tape.gradient of " + show(s, 4))
                for x in src:
                    q = [i for i in p if i.args[0].args[3].op == "seen" and t in i.args[0].args[3].args and x in self.snap[i.args[0].args[5]][0].get(t, ())]
                    d = self.derive(mk("S", *q), x, False)
                    if d is None:
                        return self.doubt("tape.gradient of " + show(s, 4))
                    out.append(NONE if d is NONE else self.wrap("tf", d))
            return self.seq(it, st, out) if xs is not None else Val(out[0])
        if name in ("stop_recording", "reset", "jacobian", "batch_jacobian"):
            return self.doubt(name)
        return self.doubt("tape." + name)

    def accumulator(self, it, st, t, name, args, kwargs):
        if name == "jvp" and len(args) == 1 and not kwargs:
            x = it.term(args[0], st)
            u = self.strip(x)
            if u.op != "G":
                return self.doubt("jvp of " + show(x, 4))
            if t not in u.args[4].args:
                return Val(NONE)
            P, T = self.accs[t]
            d = self.along(u, P, T)
            return Val(NONE if d is NONE else self.wrap("tf", d))
        return self.doubt("accumulator." + name)


# -- memory layout ----------------------------------------------------------------

STRIDES = [(), (8,), (-8,), (0,), (24, 8), (-24, 8), (24, -8), (-24, -8), (0, -8), (8, 8, -8), (-8, 0, 8)]


class Unknown(Exception):
    pass


class Empty(Exception):
    """The code needs at least one dimension."""


def strided(t, arg, strides):
    """Value of a term that depends on the strides of one array only."""
    ev = lambda s: strided(s, arg, strides)
    if t is arg:
        return ("view", min(strides, default=0) < 0)
    if t.op == "own" and AD.strip(t) is arg:
        return ("view", False)
    if t.op == "const":
        return t.args[0]
    if t.op in ("tuple", "list"):
        return tuple(ev(a) for a in t.args)
    if t.op == "attr" and t.args[0] is arg and t.args[1] == "strides":
        return strides
    if t.op == "attr" and t.args[0] is arg and t.args[1] == "ndim" or t.op == "ndim" and t.args[0] is arg:
        return len(strides)
    if t.op == "ite":
        return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
    if t.op == "not":
        return not ev(t.args[0])
    if t.op == "and":
        return all(ev(a) for a in t.args)
    if t.op == "or":
        return any(ev(a) for a in t.args)
    if t.op in ("truthy", "bool"):
        v = ev(t.args[0])
        if isinstance(v, tuple) and v and not isinstance(v[0], (int, bool)):
            raise Unknown
        return bool(v)
    if t.op == "select":
        v, i = ev(t.args[0]), ev(t.args[1])
        if not isinstance(v, tuple) or not isinstance(i, int):
            raise Unknown
        if not strides:
            raise Empty
        return v[i]
    if t.op == "map" and len(t.args) == 2:
        seq = ev(t.args[1])
        if not isinstance(seq, tuple):
            raise Unknown
        holes = {u for u in subterms(t.args[0]) if u.op == "hole"}
        if len(holes) > 1:
            raise Unknown
        return tuple(ev(subst(t.args[0], {h: const(x) for h in holes})) for x in seq)
    if t.op in ("any", "all", "sum", "prod", "min", "max", "len") and len(t.args) == 1:
        t = mk("npcall", t.op, t.args[0])
    if t.op in ("lt", "le", "gt", "ge", "eq", "ne") and len(t.args) == 2:
        a, b = ev(t.args[0]), ev(t.args[1])
        import operator as o
        f = getattr(o, t.op)
        if isinstance(a, tuple) and not isinstance(b, tuple):
            return tuple(f(x, b) for x in a)
        if isinstance(b, tuple) and not isinstance(a, tuple):
            return tuple(f(a, x) for x in b)
        if isinstance(a, tuple):
            if len(a) != len(b):
                raise Unknown
            return tuple(f(x, y) for x, y in zip(a, b))
        return f(a, b)
    if t.op in ("npcall", "call", "mcall", "xcall", "ext"):
        name = t.args[0] if isinstance(t.args[0], str) else None
        ops = [a for a in (t.args[1] if len(t.args) > 1 and isinstance(t.args[1], tuple) else t.args[1:]) if hasattr(a, "op")]
        short = (name or "").split(".")[-1]
        if ops and short in ("array", "asarray", "list", "tuple") and len(ops) == 1:
            return ev(ops[0])
        if ops and short in ("any", "all", "min", "max", "amin", "amax", "sign", "len", "sum", "prod") and len(ops) == 1:
            v = ev(ops[0])
            if not isinstance(v, tuple):
                v = (v,)
            if short == "sign":
                return tuple((x > 0) - (x < 0) for x in v)
            f = {"any": any, "all": all, "len": len, "sum": sum, "prod": math.prod}.get(short) or {"n": min, "x": max}[short[-1]]
            return f(v) if v or short in ("any", "all", "len", "sum", "prod") else 0
    raise Unknown


def layout(rep, hooks, key, loc):
    seen = set()
    for arg, t, pc in hooks.layouts:
        if (arg, t, pc) in seen or arg.op != "sym":
            continue
        seen.add((arg, t, pc))
        k = f"memory layout of {show(arg)}@{key}"
        bad = None
        unk = False
        for s in STRIDES:
            try:
                if any(bool(strided(c, arg, s)) != bool(w) for c, w in pc if contains(c, lambda u: u is arg)):
                    continue
                v = strided(t, arg, s)
                if not isinstance(v, tuple) or v[0] != "view":
                    raise Unknown
                if v[1]:
                    bad = s
                    break
            except Empty:
                continue
            except (Unknown, TypeError, ValueError):
                unk = True
        if bad is not None:
            rep.bad(k, f"an array with strides {bad} is wrapped without a copy, which PyTorch refuses", loc)
        elif unk:
            rep.unk(k, "condition on the layout not decided: " + show(t, 6)[:200], loc)
        else:
            rep.ok(k, "arrays with negative strides are copied", loc)


# -- obligations ----------------------------------------------------------------


def patterns(n):
    """Dependence of the cost and of the gradient's components."""
    for k in range(1, n + 1):
        for dep in itertools.combinations(range(n), k):
            pairs = [(a, b) for a in dep for b in dep if a <= b]
            for m in range(len(pairs) + 1):
                for rel in itertools.combinations(pairs, m):
                    yield frozenset(dep), frozenset(rel)


def expected(kind, n, dep, rel):
    out = []
    xs = [sym(f"x{j + 1}") for j in range(n)]
    vs = [sym(f"v{j + 1}") for j in range(n)]
    for j in range(n):
        if kind == "gradient":
            out.append(("G", j) if j in dep else ("Z", j))
        else:
            ps = [i for i in range(n) if (min(i, j), max(i, j)) in rel]
            out.append(("H", j, tuple((i, vs[i]) for i in ps)) if ps else ("Z", j))
    return xs, vs, out


def reading(hooks, t, xs):
    """(kind, component, ...) of a result, or None."""
    n = len(xs)
    if t.op == "tensor":
        return ("not a NumPy array",)
    t = AD.strip(t)
    if t.op in ("G", "H"):
        pt = tuple(AD.strip(p) for p in t.args[2].args)
        if pt != tuple(xs):
            return ("derivative at other arguments",) if all(p.op == "sym" for p in pt) else None
        if t.args[1] is not FALSE:
            return ("conjugate of the derivative",)
        if t.op == "G":
            return ("G", t.args[0].args[0])
        ps = []
        for p in t.args[3].args:
            if p.args[2] is not TRUE:
                return ("derivative of a product that is not the real inner product",)
            ps.append((p.args[0].args[0], AD.strip(p.args[1])))
        return ("H", t.args[0].args[0], tuple(sorted(ps, key=lambda q: (q[0], q[1].tid))))
    if t.op == "Z":
        z = AD.strip(t.args[0])
        return ("Z", xs.index(z)) if z in xs else None
    if t is NONE:
        return ("None",)
    if t.op == "sym" and (t in xs or t.args[0][:1] == "v" and t.args[0][1:].isdigit()):
        return ("an argument or vector itself",)
    if t.op == "npcall" and t.args[0] == "zeros" and t.args[1] and t.args[1][0].op in ("const", "tuple"):
        return (f"zero of shape {show(t.args[1][0])}",)
    if t.op == "conjugate":
        return ("conjugate",)
    if t.op == "accumulated":
        return ("sum of several derivatives",)
    return None


def run(rep, tier):
    program = oc.program(oc.ROOT)
    found = backends(program)
    if len(found) < 5:
        rep.unk("backends", f"{len(found)} backends found", BASE)
    for c in found:
        rep.count("backends")
        for n in range(1, 4 if tier == "quick" else 5):
            for dep, rel in patterns(n):
                for kind in ("gradient", "hessian"):
                    if kind == "hessian" or not rel:
                        one(rep, program, c, n, dep, rel, kind)
        prepared(rep, program, c)


def backends(program):
    ns = program.namespace(BASE)
    out = []
    base = program.get(BASE + "._backend", "Backend")
    for k, v in sorted(ns.items()):
        if isinstance(v, Cls) and v is not base and base in v.mro() and v not in out:
            out.append(v)
    return out


def build(program, c, n, dep, rel):
    hooks = AD(program, n, dep, rel)
    it, st = fresh_interp(program, hooks)
    it.sinks.append([])
    ref = it.instantiate(c, [], {}, st, entry_node("c18"))
    return hooks, it, st, ref


def method_of(program, c, name):
    v, owner = c.lookup(name)
    return v, owner


def one(rep, program, c, n, dep, rel, kind):
    loc = f"{c.module if hasattr(c, 'module') else BASE}:{c.name}.generate_{kind}_operator"
    d = "".join(str(i + 1) for i in sorted(dep)) + ("/" + ",".join(f"{a + 1}{b + 1}" for a, b in sorted(rel)) if kind == "hessian" else "")
    key = f"{kind}@{c.name}, {n} arguments, dependence {d}"
    hooks, it, st, ref = build(program, c, n, dep, rel)
    xs, vs, want = expected(kind, n, dep, rel)
    v = None
    alive = True
    try:
        g = it.getattr(ref, f"generate_{kind}_operator", st, entry_node("c18g"))
        op = it.call(g, [Val(COSTF), Val(const(n))], {}, st, entry_node("c18c"))
        args = [Val(x) for x in (xs if kind == "gradient" else xs + vs)]
        v = it.call(op, args, {}, st, entry_node("c18o"))
    except Dead:
        alive = False
    sinks = it.sinks.pop()
    if c.name.lower().startswith("numpy"):
        kinds = {s[0] for s in sinks}
        if alive:
            rep.bad(f"refused@{key}", "a value is returned without automatic differentiation", loc)
        else:
            rep.verdict(f"refused@{key}", True if "NotImplementedError" in kinds else None, f"raises {sorted(kinds)}", loc)
        return
    mut = [e for e in it.events if e.kind == "mutate" and e.data.get("addr") is None]
    if hooks.unsure or mut:
        rep.unk(key, "not modelled: " + "; ".join(hooks.unsure[:3] + [str(e.data.get("how")) for e in mut[:2]]), loc)
        return
    if not alive:
        why = hooks.errors or [s[0] for s in sinks if s[0] != "RuntimeError"]
        if why:
            rep.bad(key, f"raises: {why[0]}", loc)
        else:
            rep.unk(key, "no result", loc)
        return
    res = result(it, st, v)
    if n == 1:
        if isinstance(res, tuple):
            rep.bad(key, "a sequence is returned for a cost with one argument", loc)
            return
        res = (res,)
    if not isinstance(res, tuple):
        rep.unk(key, "result is no sequence: " + show(res, 5)[:200], loc)
        return
    if len(res) != n:
        rep.bad(key, f"{len(res)} values for {n} arguments", loc)
        return
    for j in range(n):
        if isinstance(res[j], tuple):
            rep.unk(f"{key}, result {j + 1}", "nested", loc)
            continue
        r = reading(hooks, res[j], xs)
        if j == 0 and len(dep) == n:
            layout(rep, hooks, key, loc)
        k = f"{key}, result {j + 1}"
        if r is None:
            rep.unk(k, "not recognised: " + show(res[j], 6)[:300], loc)
        elif r == want[j]:
            rep.ok(k, words(r), loc)
        else:
            rep.bad(k, f"is {words(r)}, expected {words(want[j])}", loc)


def words(r):
    if r[0] == "G":
        return f"component {r[1] + 1} of the gradient"
    if r[0] == "Z":
        return f"zero of the shape of argument {r[1] + 1}"
    if r[0] == "H":
        return f"derivative of component {r[1] + 1} of the gradient along " + ", ".join(f"{show(v)} in argument {i + 1}" for i, v in r[2])
    return r[0]


def prepared(rep, program, c):
    loc = f"{BASE}:{c.name}.prepare_function"
    for n in (1, 2, 3):
        full = frozenset(range(n))
        hooks, it, st, ref = build(program, c, n, full, frozenset())
        key = f"cost@{c.name}, {n} arguments"
        xs = [sym(f"x{j + 1}") for j in range(n)]
        try:
            g = it.getattr(ref, "prepare_function", st, entry_node("c18p"))
            f = it.call(g, [Val(COSTF)], {}, st, entry_node("c18pc"))
            v = it.term(it.call(f, [Val(x) for x in xs], {}, st, entry_node("c18po")), st)
        except Dead:
            rep.verdict(key, False if hooks.errors else None, f"raises {hooks.errors}", loc)
            continue
        finally:
            it.sinks.pop()
        if hooks.unsure:
            rep.unk(key, "; ".join(hooks.unsure[:3]), loc)
            continue
        u = AD.strip(v)
        layout(rep, hooks, key, loc)
        if u.op != "C":
            rep.unk(key, show(v, 5)[:200], loc)
        elif tuple(AD.strip(a) for a in u.args[0].args) != tuple(xs):
            rep.verdict(key, False if all(AD.strip(a).op == "sym" for a in u.args[0].args) else None, "the cost is evaluated at " + show(u.args[0], 5), loc)
        elif v.op == "tensor":
            rep.bad(key, "returns a tensor of the library, not a NumPy value", loc)
        elif c.name.lower().startswith(("pytorch", "tensorflow")) and any(a.op != "tensor" for a in u.args[0].args):
            rep.bad(key, "the cost receives NumPy arrays instead of tensors", loc)
        else:
            rep.ok(key, "the cost at the arguments in order", loc)
