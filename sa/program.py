"""Program model: modules of pymanopt, builtins and external functions."""
import ast
import builtins as _b
import os

from .terms import *
from .values import *
from .interp import Interp, Lazy, StarVal, Dead, Frame, Hooks, MUTATING_METHODS

NPPREFIX = ("numpy.", "autograd.numpy.", "jax.numpy.")

CANON = {
    "absolute": "abs", "fabs": "abs", "conjugate": "conj", "asarray": "array_", "array": "array",
    "asanyarray": "array_", "amax": "max", "amin": "min", "arccos": "arccos", "acos": "arccos",
    "arcsin": "arcsin", "arctan": "arctan", "arccosh": "arccosh", "acosh": "arccosh",
    "arctanh": "arctanh", "atanh": "arctanh", "arcsinh": "arcsinh",
    "float64": "float", "float_": "float", "fix": "trunc",
    "permute_dims": "transpose", "concat": "concatenate", "matrix_transpose": "mT",
}

#: positional parameter names used to normalise keyword calls
SIG = {
    "sum": ["a", "axis", "dtype", "out", "keepdims"],
    "mean": ["a", "axis"],
    "prod": ["a", "axis"],
    "linalg.norm": ["x", "ord", "axis", "keepdims"],
    "tensordot": ["a", "b", "axes"],
    "expand_dims": ["a", "axis"],
    "squeeze": ["a", "axis"],
    "clip": ["a", "a_min", "a_max"],
    "trace": ["a", "offset", "axis1", "axis2"],
    "diagonal": ["a", "offset", "axis1", "axis2"],
    "transpose": ["a", "axes"],
    "swapaxes": ["a", "axis1", "axis2"],
    "tile": ["A", "reps"],
    "random.normal": ["loc", "scale", "size"],
    "random.uniform": ["low", "high", "size"],
    "linalg.qr": ["a", "mode"],
    "linalg.svd": ["a", "full_matrices", "compute_uv"],
    "linalg.solve": ["a", "b"],
    "einsum": None,
    "reshape": ["a", "newshape"],
    "zeros": ["shape", "dtype"],
    "ones": ["shape", "dtype"],
    "eye": ["N", "M"],
    "zeros_like": ["a", "dtype"],
    "max": ["a", "axis"],
    "min": ["a", "axis"],
    "argsort": ["a", "axis"],
    "argmin": ["a", "axis"],
    "argmax": ["a", "axis"],
    "where": ["condition", "x", "y"],
    "vdot": ["a", "b"],
    "repeat": ["a", "repeats", "axis"],
    "stack": ["arrays", "axis"],
    "concatenate": ["arrays", "axis"],
}

RANDOM_PREFIX = ("random.",)


def np_name(name):
    for p in NPPREFIX:
        if name.startswith(p):
            n = name[len(p):]
            return CANON.get(n, n)
    if name.startswith("math.") or name.startswith("cmath."):
        n = name.split(".", 1)[1]
        return CANON.get(n, n)
    if name.startswith("scipy."):
        return name
    return None


class Program:
    def __init__(self, root, package="pymanopt"):
        self.root = root
        self.files = {}
        self.trees = {}
        self.mods = {}
        self.digests = {}
        base = os.path.join(root, "src")
        for dp, dn, fn in os.walk(os.path.join(base, package)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, base)[:-3].replace(os.sep, ".")
                    ispkg = rel.endswith(".__init__")
                    name = rel[: -len(".__init__")] if ispkg else rel
                    self.files[name] = (path, ispkg)
        for name, (path, ispkg) in self.files.items():
            with open(path) as fh:
                src = fh.read()
            self.trees[name] = ast.parse(src, path)
        self.state = State()
        self.interp = Interp(self, Hooks())
        self._builtins = {}
        self._methods = {}
        _install_builtins(self)

    # -- modules --------------------------------------------------------

    def package_of(self, mod):
        if mod in self.files and self.files[mod][1]:
            return mod
        return mod.rsplit(".", 1)[0]

    def import_module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name not in self.trees:
            return Ext(name)
        env = ("mod", name)
        m = self.mods[name] = Mod(name, env)
        st = self.state
        st.envs[env] = {"__name__": Val(const(name)), "$captured": True}
        st.own_e.add(env)
        it = self.interp
        it.modstack.append(name)
        it.frames.append(Frame("<module>", env))
        try:
            out = it.exec_block(self.trees[name].body, st)
            if out is not None and out is not st:
                st.assign(out)
        finally:
            it.frames.pop()
            it.modstack.pop()
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            if parent in self.mods:
                st.env_w(("mod", parent)).setdefault(leaf, m)
        return m

    def load_all(self):
        for name in sorted(self.trees):
            self.import_module(name)
        return self

    def import_from(self, mod, attr):
        m = self.import_module(mod)
        if isinstance(m, Ext):
            return Ext(m.name + "." + attr)
        sub = f"{mod}.{attr}"
        env = self.state.envs.get(m.env, {})
        if attr in env:
            return env[attr]
        if sub in self.trees:
            return self.import_module(sub)
        return Val(mk("unknown", f"import:{mod}.{attr}"))

    def module_attr(self, m, name, st):
        d = st.envs.get(m.env) or self.state.envs.get(m.env)
        if name in d:
            return d[name]
        sub = f"{m.name}.{name}"
        if sub in self.trees:
            return self.import_module(sub)
        return Val(mk("unknown", f"modattr:{m.name}.{name}"))

    def namespace(self, modname):
        m = self.import_module(modname)
        return self.state.envs[m.env]

    def get(self, modname, *path):
        m = self.import_module(modname)
        v = self.state.envs[m.env][path[0]]
        for p in path[1:]:
            v, _ = v.lookup(p)
        return v

    def has(self, modname, name):
        if modname not in self.trees:
            return False
        m = self.import_module(modname)
        return name in self.state.envs[m.env]

    # -- builtins -------------------------------------------------------

    def builtin(self, name):
        if name in self._builtins:
            return self._builtins[name]
        if hasattr(_b, name):
            return Ext(name)
        if name == "__name__":
            return Val(const("?"))
        return None

    def method(self, kind, name):
        m = self._methods.get((kind, name))
        if m is None:
            def fn(it, st, args, kwargs, node, name=name, kind=kind):
                base = args[0]
                t = mk("mcall", name, it.term(base, st), it.arg_terms(args[1:], st), tuple(sorted((k, it.term(v, st)) for k, v in kwargs.items())))
                if name in MUTATING_METHODS:
                    it.note(f"unmodelled mutation {kind}.{name}", node)
                return Val(t)
            m = self._methods[(kind, name)] = Builtin(f"{kind}.{name}", fn)
        return m

    def opaque_prov(self, f):
        return f.prov

    # -- external calls -------------------------------------------------

    def call_ext(self, it, name, args, kwargs, st, node):
        r = it.hooks.ext_call(it, st, name, args, kwargs, node)
        if r is not None:
            return r
        if name in EXT:
            return EXT[name](it, st, args, kwargs, node)
        np = np_name(name)
        if np is not None:
            return self.call_np(it, np, args, kwargs, st, node)
        if name.endswith(("Error", "Exception", "Warning")):
            return Ext(name)
        t = mk("ext", name, it.arg_terms(args, st), tuple(sorted((k, it.term(v, st)) for k, v in kwargs.items())))
        over = [k for k, v in kwargs.items() if k.startswith("overwrite_") and it.term(v, st) is not FALSE]
        if over and args:
            it.event("mutate", st, node, how=over[0], prov=it.provs(args[0], st), term=it.term(args[0], st), idx=NONE, value=NONE)
        if name.startswith("time."):
            t = it.fresh("time", node)
        elif name.startswith(("random.", "secrets.", "os.urandom", "uuid.")):
            t = it.fresh("pyrandom", node)
        it.event("ext", st, node, name=name, args=it.arg_terms(args, st), kwargs=tuple(sorted((k, it.term(v, st)) for k, v in kwargs.items())), result=t)
        return Val(t)

    def call_np(self, it, name, args, kwargs, st, node):
        if name in NP_VALUE:
            return NP_VALUE[name](it, st, args, kwargs, node)
        targs = list(it.arg_terms(args, st))
        tkw = {k: it.term(v, st) for k, v in kwargs.items()}
        sig = SIG.get(name)
        if sig:
            while len(targs) < len(sig) and sig[len(targs)] in tkw:
                targs.append(tkw.pop(sig[len(targs)]))
        kw = tuple(sorted(tkw.items()))
        if "out" in tkw:
            it.event("mutate", st, node, how="out=", prov=it.provs(kwargs["out"], st), term=tkw["out"], idx=NONE, value=NONE)
        n = 1 if name in UFUNC1 else 2 if name in UFUNC2 else 3 if name == "clip" else None
        if n is not None and len(args) > n and targs[n] is not NONE:
            it.event("mutate", st, node, how="out=", prov=it.provs(args[n], st), term=targs[n], idx=NONE, value=NONE)
            del targs[n:]
        if name == "nan_to_num" and args and tkw.get("copy") is FALSE:
            it.event("mutate", st, node, how="np." + name, prov=it.provs(args[0], st), term=targs[0], idx=NONE, value=NONE)
        if name in INPLACE_NP and args:
            it.event("mutate", st, node, how="np." + name, prov=it.provs(args[0], st), term=targs[0], idx=NONE, value=NONE)
        if name.startswith("random."):
            t = it.fresh("np." + name, node)
            t = mk("random", name, t, tuple(targs), kw)
            it.event("random", st, node, name="numpy." + name, args=tuple(targs), kwargs=kw, result=t)
            return Val(t)
        t = np_term(name, targs, kw)
        prov = frozenset()
        if name in NP_VIEW and args:
            prov = it.provs(args[0], st)
        return Val(t, prov)


NP_VIEW = {"array_", "split", "array_split", "hsplit", "vsplit", "rollaxis", "flip", "fliplr", "flipud", "rot90", "matrix_transpose", "transpose", "reshape", "squeeze", "expand_dims", "swapaxes", "ravel", "real", "imag", "diagonal", "atleast_2d", "atleast_3d", "atleast_1d", "broadcast_to", "moveaxis", "asfortranarray", "ascontiguousarray"}
UFUNC1 = {"negative", "sqrt", "exp", "log", "abs", "absolute", "conj", "conjugate", "square", "sin", "cos", "tan", "arccos", "arctan", "sinh", "cosh", "tanh", "arctanh", "arccosh", "sign", "log10", "log1p", "expm1", "reciprocal", "isnan", "isfinite", "floor", "ceil"}
UFUNC2 = {"add", "subtract", "multiply", "divide", "true_divide", "power", "float_power", "maximum", "minimum", "matmul", "arctan2", "hypot", "mod", "remainder", "fmax", "fmin"}
INPLACE_NP = {"fill_diagonal", "copyto", "put", "place", "random.shuffle", "put_along_axis"}


def np_term(name, a, kw):
    if not kw:
        if name in ("multiply",) and len(a) == 2:
            return Arith("mul", *a)
        if name == "add" and len(a) == 2:
            return Arith("add", *a)
        if name == "subtract" and len(a) == 2:
            return Arith("sub", *a)
        if name in ("divide", "true_divide") and len(a) == 2:
            return Arith("div", *a)
        if name == "matmul" and len(a) == 2:
            return mk("matmul", *a)
        if name == "negative" and len(a) == 1:
            return Neg(a[0])
        if name == "square" and len(a) == 1:
            return Arith("pow", a[0], const(2))
        if name in ("power", "pow", "float_power") and len(a) == 2:
            if a[1] is const(0.5):
                return mk("npcall", "sqrt", (a[0],), ())
            return Arith("pow", *a)
        if name == "copy" and len(a) == 1:
            return a[0]
        if name in ("array", "array_") and len(a) == 1:
            if a[0].op not in ("list", "tuple", "map"):
                return a[0]
            return mk("npcall", "array", (a[0],), ()) if a[0].op != "map" else a[0]
        if name in ("isnan", "isinf", "isfinite"):
            if a[0].op == "const" and isinstance(a[0].args[0], (int, float)):
                import math
                f = {"isnan": math.isnan, "isinf": math.isinf, "isfinite": math.isfinite}[name]
                return const(f(a[0].args[0]))
            return mk("truthy", mk("npcall", name, tuple(a), ()))
        if name in ("max", "min", "maximum", "minimum") and len(a) == 2 and name in ("maximum", "minimum"):
            return mk("npcall", name, tuple(sorted(a, key=lambda t: t.tid)), ())
        if name == "sqrt" and is_num(a[0]) and isinstance(a[0].args[0], (int, float)) and a[0].args[0] >= 0:
            import math
            r = math.sqrt(a[0].args[0])
            if r == int(r):
                return const(r)
        if name == "less":
            return Lt(*a)
        if name == "greater":
            return Lt(a[1], a[0])
        if name == "less_equal":
            return Le(*a)
        if name == "greater_equal":
            return Le(a[1], a[0])
        if name == "logical_and":
            return And(*a)
        if name == "logical_or":
            return Or(*a)
        if name == "logical_not":
            return Not(a[0])
    return mk("npcall", name, tuple(a), kw)


def _install_builtins(p):
    B = p._builtins

    def reg(name):
        def deco(fn):
            B[name] = Builtin(name, fn)
            return fn
        return deco

    for n in ("True", "False", "None"):
        pass

    @reg("print")
    def _print(it, st, a, k, node):
        kw = {q: it.term(it.resolve(k[q], st), st) for q in ("sep", "end") if q in k}
        it.event("print", st, node, args=it.arg_terms(a, st), **kw)
        return Val(NONE)

    @reg("len")
    def _len(it, st, a, k, node):
        v = it.resolve(a[0], st)
        if isinstance(v, Ref) and st.heap[v.addr].kind == "inst" and st.heap[v.addr].items is None and st.heap[v.addr].term is None:
            f, _ = st.heap[v.addr].cls.lookup("__len__")
            if f is not None:
                return it.call(Bound(f, v), [], {}, st, node)
        c = None
        if isinstance(v, (Tup, Ref)):
            c = it.concrete_iter(v, st)
        if c is not None:
            return Val(const(len(c)))
        return Val(Len(it.seq_term(v, st)))

    @reg("range")
    def _range(it, st, a, k, node):
        t = [it.term(x, st) for x in a]
        if len(t) == 1:
            return Val(mk("range", ZERO, t[0], ONE))
        if len(t) == 2:
            return Val(mk("range", t[0], t[1], ONE))
        return Val(mk("range", *t[:3]))

    def lazy(kind):
        def f(it, st, a, k, node):
            l = Lazy(kind, a)
            l.node = node
            if any(isinstance(x, StarVal) for x in a):
                return Val(mk("ext", kind, it.arg_terms(a, st), ()))
            return l
        return f

    for kind in ("enumerate", "zip", "map", "reversed"):
        B[kind] = Builtin(kind, lazy(kind))

    @reg("isinstance")
    def _isinstance(it, st, a, k, node):
        return Val(it_isinstance(it, st, a[0], a[1]))

    @reg("issubclass")
    def _issub(it, st, a, k, node):
        if isinstance(a[0], Cls) and isinstance(a[1], Cls):
            return Val(const(a[0].is_sub(a[1])))
        return Val(mk("ext", "issubclass", it.arg_terms(a, st), ()))

    @reg("callable")
    def _callable(it, st, a, k, node):
        v = it.resolve(a[0], st)
        if isinstance(v, (Func, Bound, Builtin, Cls, Ext)):
            return Val(TRUE)
        if isinstance(v, Ref):
            o = st.heap[v.addr]
            return Val(const(o.kind == "inst" and o.cls.lookup("__call__")[0] is not None))
        t = it.term(v, st)
        if t.op == "const":
            return Val(FALSE)
        return Val(mk("truthy", mk("ext", "callable", (t,), ())))

    @reg("hasattr")
    def _hasattr(it, st, a, k, node):
        v = it.resolve(a[0], st)
        nm = it.term(a[1], st)
        if nm.op == "const" and isinstance(v, Ref) and st.heap[v.addr].kind == "inst":
            o = st.heap[v.addr]
            return Val(const(nm.args[0] in o.attrs or o.cls.lookup(nm.args[0])[0] is not None))
        if nm.op == "const" and isinstance(v, Cls):
            return Val(const(v.lookup(nm.args[0])[0] is not None))
        return Val(mk("truthy", mk("ext", "hasattr", it.arg_terms(a, st), ())))

    @reg("getattr")
    def _getattr(it, st, a, k, node):
        nm = it.term(a[1], st)
        if nm.op == "const":
            if len(a) > 2:
                h = _hasattr(it, st, a[:2], {}, node).term
                if h is FALSE:
                    return a[2]
            return it.getattr(a[0], nm.args[0], st, node)
        return Val(mk("ext", "getattr", it.arg_terms(a, st), ()))

    @reg("setattr")
    def _setattr(it, st, a, k, node):
        nm = it.term(a[1], st)
        if nm.op == "const":
            it.setattr(a[0], nm.args[0], a[2], st, node)
        else:
            it.note("symbolic setattr", node)
        return Val(NONE)

    @reg("type")
    def _type(it, st, a, k, node):
        v = it.resolve(a[0], st)
        if isinstance(v, Ref) and st.heap[v.addr].kind == "inst":
            return st.heap[v.addr].cls
        return Val(mk("ext", "type", it.arg_terms(a, st), ()))

    @reg("super")
    def _super(it, st, a, k, node):
        if len(a) == 2:
            return Super(a[0], a[1])
        return it.make_super(st)

    @reg("property")
    def _prop(it, st, a, k, node):
        return Prop(a[0])

    @reg("staticmethod")
    def _static(it, st, a, k, node):
        return StaticM(a[0])

    @reg("classmethod")
    def _classm(it, st, a, k, node):
        return ClassM(a[0])

    def conv(kind):
        def f(it, st, a, k, node):
            if not a:
                return it.alloc(st, ListObj([])) if kind != "tuple" else Tup(())
            v = it.resolve(a[0], st)
            c = it.concrete_iter(v, st)
            if c is not None:
                return Tup(c) if kind == "tuple" else it.alloc(st, ListObj(list(c), iset=kind in ("set", "frozenset")))
            t = v.term(it, st) if isinstance(v, Lazy) else it.seq_term(v, st)
            # elements still alias: note as element provenance only
            pr = frozenset("elem:" + x if not x.startswith("elem:") else x for x in it.provs(v, st))
            if kind == "tuple":
                return Val(t, pr)
            return it.alloc(st, ListObj(None, t, pr))
        return f

    for kind in ("list", "tuple", "set", "frozenset"):
        B[kind] = Builtin(kind, conv(kind))

    @reg("dict")
    def _dict(it, st, a, k, node):
        d = DictObj(dict(k))
        if a:
            v = it.resolve(a[0], st)
            if isinstance(v, Ref) and st.heap[v.addr].kind == "dict":
                o = st.heap[v.addr]
                d.items = {**o.items, **k}
                d.term = o.term
            else:
                c = it.concrete_iter(v, st)
                if c is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in c):
                    for x in c:
                        kt = it.term(x.items[0], st)
                        d.items[kt.args[0] if kt.op == "const" else kt] = x.items[1]
                else:
                    d.term = mk("dictof", it.seq_term(v, st))
        return it.alloc(st, d)

    def num(kind):
        def f(it, st, a, k, node):
            if not a:
                return Val(const(0 if kind == "int" else 0.0))
            t = it.term(a[0], st)
            if is_num(t) and isinstance(t.args[0], (int, float)):
                try:
                    return Val(const(int(t.args[0]) if kind == "int" else float(t.args[0])))
                except Exception:
                    return Val(t)
            if kind == "float":
                return Val(mk("float", t)) if t.op in ("const",) else Val(t)
            if it.kindof(t) == "int" or t.op == "len":
                return Val(t)
            return Val(mk("npcall", "int", (t,), ()))
        return f

    B["float"] = Builtin("float", num("float"))
    B["int"] = Builtin("int", num("int"))

    @reg("bool")
    def _bool(it, st, a, k, node):
        return Val(it.truth(a[0], st))

    @reg("str")
    def _str(it, st, a, k, node):
        v = it.resolve(a[0], st) if a else Val(const(""))
        if isinstance(v, Ref) and st.heap[v.addr].kind == "inst":
            f, _ = st.heap[v.addr].cls.lookup("__str__")
            if f is not None:
                return it.call(Bound(f, v), [], {}, st, node)
        t = it.term(v, st)
        if t.op == "const":
            return Val(const(str(t.args[0])))
        return Val(mk("ext", "str", (t,), ()))

    @reg("repr")
    def _repr(it, st, a, k, node):
        return Val(mk("ext", "repr", it.arg_terms(a, st), ()))

    @reg("abs")
    def _abs(it, st, a, k, node):
        t = it.term(a[0], st)
        if is_num(t):
            return Val(const(abs(t.args[0])))
        return Val(mk("npcall", "abs", (t,), ()))

    def minmax(kind):
        def f(it, st, a, k, node):
            if len(a) == 1:
                c = it.concrete_iter(a[0], st)
                if c is None:
                    return Val(mk("npcall", kind, (it.seq_term(a[0], st),), ()))
                a = c
            ts = [it.term(x, st) for x in a]
            if all(is_num(t) for t in ts):
                return Val(const((min if kind == "min" else max)(t.args[0] for t in ts)))
            ts = sorted(set(ts), key=lambda t: t.tid)
            if len(ts) == 1:
                return Val(ts[0])
            return Val(mk("npcall", kind + "2", tuple(ts), ()))
        return f

    B["min"] = Builtin("min", minmax("min"))
    B["max"] = Builtin("max", minmax("max"))

    @reg("sum")
    def _sum(it, st, a, k, node):
        start = a[1] if len(a) > 1 else k.get("start")
        c = it.concrete_iter(a[0], st)
        if c is not None:
            acc = start if start is not None else None
            for x in c:
                if isinstance(x, Val) and x.term.op in ("not", "and", "or", "eq", "lt", "le", "isnone", "truthy") or (isinstance(x, Val) and x.term in (TRUE, FALSE)):
                    # truth values count
                    x = Val(Ite(x.term, ONE, ZERO))
                acc = x if acc is None else it.binop("add", acc, x, st, node)
            return acc if acc is not None else Val(ZERO)
        v = a[0]
        t = v.term(it, st) if isinstance(v, Lazy) else it.seq_term(v, st)
        r = mk("npcall", "sum", (t,), ())
        if start is not None:
            return Val(Arith("add", it.term(start, st), r))
        return Val(r)

    def anyall(kind):
        def f(it, st, a, k, node):
            c = it.concrete_iter(a[0], st)
            if c is not None:
                ts = [it.truth(x, st) for x in c]
                return Val(And(*ts) if kind == "all" else Or(*ts))
            v = a[0]
            t = v.term(it, st) if isinstance(v, Lazy) else it.seq_term(v, st)
            return Val(mk("truthy", mk("npcall", kind, (t,), ())))
        return f

    B["any"] = Builtin("any", anyall("any"))
    B["all"] = Builtin("all", anyall("all"))

    @reg("sorted")
    def _sorted(it, st, a, k, node):
        t = mk("ext", "sorted", it.arg_terms(a[:1], st), tuple(sorted((kk, it.term(v, st)) for kk, v in k.items())))
        return it.alloc(st, ListObj(None, t))

    @reg("iter")
    def _iter(it, st, a, k, node):
        c = it.concrete_iter(a[0], st)
        if c is None:
            return a[0]
        v = it.resolve(a[0], st)
        if isinstance(v, Ref) and getattr(st.heap[v.addr], "iterator", False):
            return v
        o = ListObj(list(c), None)
        o.iterator = True
        return it.alloc(st, o)

    @reg("next")
    def _next(it, st, a, k, node):
        v = it.resolve(a[0], st)
        if isinstance(v, Ref) and getattr(st.heap[v.addr], "iterator", False):
            o = st.heap[v.addr]
            if o.items is not None and not it.in_symbolic_loop(v, st):
                o = st.obj_w(v.addr)
                if o.items:
                    return o.items.pop(0)
                if len(a) > 1:
                    return a[1]
        return Val(mk("ext", "next", it.arg_terms(a, st), ()))

    @reg("slice")
    def _slice(it, st, a, k, node):
        t = [it.term(x, st) for x in a]
        if len(t) == 1:
            t = [NONE, t[0], NONE]
        while len(t) < 3:
            t.append(NONE)
        return Val(mk("slice_obj", *t))

    # list methods
    M = p._methods

    def meth(kind, name):
        def deco(fn):
            M[(kind, name)] = Builtin(f"{kind}.{name}", fn)
            return fn
        return deco

    @meth("list", "append")
    def _append(it, st, a, k, node):
        ref, v = a[0], a[1]
        o = st.heap[ref.addr]
        it.event("mutate", st, node, how="append", prov=getattr(o, "prov", frozenset()), term=None, idx=NONE, value=it.term(v, st), addr=ref.addr, val=v)
        o = st.obj_w(ref.addr)
        if o.items is not None and not it.in_symbolic_loop(ref, st):
            o.items.append(v)
        else:
            cur = it.term(ref, st)
            o.items = None
            o.term = mk("append", cur, it.term(v, st))
        return Val(NONE)

    @meth("list", "extend")
    def _extend(it, st, a, k, node):
        it.list_extend(st, a[0], a[1], node)
        return Val(NONE)

    @meth("list", "copy")
    def _copy(it, st, a, k, node):
        o = st.heap[a[0].addr]
        return it.alloc(st, ListObj(list(o.items) if o.items is not None else None, o.term, frozenset("elem:" + x if not x.startswith("elem:") else x for x in o.prov)))

    @meth("list", "insert")
    def _insert(it, st, a, k, node):
        o = st.heap[a[0].addr]
        it.event("mutate", st, node, how="insert", prov=o.prov, term=None, idx=NONE, value=it.term(a[2], st), addr=a[0].addr, val=a[2])
        o = st.obj_w(a[0].addr)
        i = it.term(a[1], st)
        if o.items is not None and is_num(i):
            o.items.insert(i.args[0], a[2])
        else:
            t = mk("insert", it.term(a[0], st), i, it.term(a[2], st))
            o.items = None
            o.term = t
        return Val(NONE)

    @meth("list", "pop")
    def _pop(it, st, a, k, node):
        o = st.obj_w(a[0].addr)
        it.event("mutate", st, node, how="pop", prov=o.prov, term=None, idx=NONE, value=NONE, addr=a[0].addr)
        if o.items is not None:
            i = it.term(a[1], st).args[0] if len(a) > 1 else -1
            return o.items.pop(i)
        t = it.term(a[0], st)
        o.term = mk("popped", t)
        return Val(Select(t, const(-1)))

    @meth("list", "sort")
    def _sort(it, st, a, k, node):
        o = st.heap[a[0].addr]
        it.event("mutate", st, node, how="sort", prov=o.prov, term=it.term(a[0], st), idx=NONE, value=NONE, addr=a[0].addr)
        t = mk("ext", "sorted", (it.term(a[0], st),), tuple(sorted((kk, it.term(v, st)) for kk, v in k.items())))
        o = st.obj_w(a[0].addr)
        o.items = None
        o.term = t
        return Val(NONE)

    @meth("dict", "get")
    def _get(it, st, a, k, node):
        o = st.heap[a[0].addr]
        kt = it.term(a[1], st)
        key = kt.args[0] if kt.op == "const" else kt
        if o.term is None and key in o.items:
            return o.items[key]
        if o.term is None and kt.op == "const":
            return a[2] if len(a) > 2 else Val(NONE)
        it.event("dictget", st, node, key=kt)
        return Val(mk("mcall", "get", it.term(a[0], st), it.arg_terms(a[1:], st), ()))

    @meth("dict", "keys")
    def _keys(it, st, a, k, node):
        o = st.heap[a[0].addr]
        return it.alloc(st, ListObj([Val(it.keyterm(x)) for x in o.items]))

    @meth("dict", "values")
    def _values(it, st, a, k, node):
        o = st.heap[a[0].addr]
        return it.alloc(st, ListObj(list(o.items.values())))

    @meth("dict", "items")
    def _items(it, st, a, k, node):
        o = st.heap[a[0].addr]
        if o.term is not None:
            return Val(mk("mcall", "items", o.term, (), ()))
        return it.alloc(st, ListObj([Tup([Val(it.keyterm(x)), v]) for x, v in o.items.items()]))

    @meth("dict", "update")
    def _update(it, st, a, k, node):
        o = st.obj_w(a[0].addr)
        o.items.update(k)
        if len(a) > 1 and isinstance(a[1], Ref) and st.heap[a[1].addr].kind == "dict":
            o.items.update(st.heap[a[1].addr].items)
        elif len(a) > 1:
            it.note("dict.update", node)
        return Val(NONE)

    @meth("dict", "setdefault")
    def _setdefault(it, st, a, k, node):
        o = st.obj_w(a[0].addr)
        kt = it.term(a[1], st)
        key = kt.args[0] if kt.op == "const" else kt
        if key not in o.items:
            o.items[key] = a[2] if len(a) > 2 else Val(NONE)
        return o.items[key]

    @meth("dict", "copy")
    def _dcopy(it, st, a, k, node):
        o = st.heap[a[0].addr]
        return it.alloc(st, o.copy())

    @meth("str", "join")
    def _join(it, st, a, k, node):
        v = a[1]
        t = v.term(it, st) if isinstance(v, Lazy) else it.seq_term(v, st)
        return Val(mk("mcall", "join", it.term(a[0], st), (t,), ()))

    for nm in ("lower", "upper", "strip"):
        def f(it, st, a, k, node, nm=nm):
            t = it.term(a[0], st)
            return Val(const(getattr(t.args[0], nm)()))
        M[("str", nm)] = Builtin("str." + nm, f)

    def in_symbolic_loop(self, ref, st):
        return False

    Interp.in_symbolic_loop = in_symbolic_loop


PYTYPES = {
    "int": int, "float": float, "str": str, "bool": bool, "complex": complex, "bytes": bytes,
    "numpy.integer": (), "numpy.floating": (), "numpy.ndarray": (), "list": (), "tuple": (), "dict": (),
    "numbers.Number": (int, float, complex), "numbers.Real": (int, float), "numbers.Integral": int,
}


def it_isinstance(it, st, v, c):
    v = it.resolve(v, st)
    if isinstance(c, Tup):
        return Or(*[it_isinstance(it, st, v, x) for x in c.items])
    if isinstance(v, Choice):
        return Ite(v.cond, it_isinstance(it, st, v.a, c), it_isinstance(it, st, v.b, c))
    cname = c.name if isinstance(c, (Ext, Builtin)) else (c.qual if isinstance(c, Cls) else "?")
    if isinstance(v, Tup):
        return TRUE if cname in ("tuple", "typing.Sequence", "collections.abc.Sequence", "typing.Iterable", "collections.abc.Iterable") else FALSE
    if isinstance(v, Ref):
        o = st.heap[v.addr]
        if o.kind == "list":
            return TRUE if cname in ("list", "typing.Sequence", "collections.abc.Sequence", "typing.Iterable", "collections.abc.Iterable") else FALSE
        if o.kind == "dict":
            return TRUE if cname in ("dict",) else FALSE
        if isinstance(c, Cls):
            return const(o.cls.is_sub(c))
        if cname in ("list", "tuple", "typing.Sequence", "collections.abc.Sequence"):
            isl = any(e == "list" or e.endswith(".list") for e in o.cls.ext_bases())
            ist = "tuple" in o.cls.ext_bases()
            return const((isl and cname != "tuple") or (ist and cname != "list"))
        return FALSE
    if isinstance(v, (Func, Bound, Builtin)):
        return TRUE if cname in ("typing.Callable", "collections.abc.Callable", "types.FunctionType") else FALSE
    if isinstance(v, Val):
        t = v.term
        if t.op == "ite":
            return Ite(t.args[0], it_isinstance(it, st, Val(t.args[1]), c), it_isinstance(it, st, Val(t.args[2]), c))
        r = it.hooks.isinstance_(t, cname)
        if r is not None:
            return const(r)
        if t.op == "const":
            if isinstance(t.args[0], str) and cname.split(".")[-1] in ("Sequence", "Iterable", "Collection", "Sized", "Container", "Hashable"):
                return TRUE
            py = PYTYPES.get(cname)
            if py is not None:
                return const(isinstance(t.args[0], py) if py else False)
            return FALSE
        if t.op == "fstr":
            return const(cname == "str")
        if t.op in ("list", "map"):
            return const(cname in ("list", "typing.Sequence", "collections.abc.Sequence"))
        return mk("isinstance", t, cname)
    return mk("isinstance", it.term(v, st), cname)


# ---------------------------------------------------------------------------
# external functions returning structured values


def _identity_deco(it, st, a, k, node):
    return a[0]


def _wraps(it, st, a, k, node):
    target = a[0]

    def deco(it2, st2, a2, k2, node2):
        f = a2[0]
        if isinstance(f, Func):
            f.wrapped = target if isinstance(target, (Func, Bound)) else f.wrapped
            if isinstance(target, Func):
                f.display = target.name
        return f

    return Builtin("wraps-deco", deco)


def _dataclass(it, st, a, k, node):
    def deco(it2, st2, a2, k2, node2):
        cls = a2[0]
        cls.dataclass = True
        fields = []
        for s in cls.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                d = None
                if s.value is not None:
                    d = it2.ev(s.value, st2)
                fields.append((s.target.id, d))
        cls.dc_fields = lambda: fields
        return cls

    if a:
        return deco(it, st, a, k, node)
    return Builtin("dataclass-deco", deco)


def _defaultdict(it, st, a, k, node):
    return it.alloc(st, DictObj({}, a[0] if a else None))


def _deepcopy(it, st, a, k, node):
    v = it.resolve(a[0], st)
    if isinstance(v, Ref):
        memo = {}

        def cp(x):
            if isinstance(x, Ref):
                if x.addr in memo:
                    return memo[x.addr]
                o = st.heap[x.addr].copy()
                r = it.alloc(st, o)
                memo[x.addr] = r
                o2 = st.obj_w(r.addr)
                if o2.kind == "inst":
                    o2.attrs = {kk: cp(vv) for kk, vv in o2.attrs.items()}
                if o2.kind in ("inst", "list") and o2.items is not None:
                    o2.items = [cp(y) for y in o2.items]
                if o2.kind == "dict":
                    o2.items = {kk: cp(vv) for kk, vv in o2.items.items()}
                if o2.kind == "list":
                    o2.prov = frozenset()
                return r
            if isinstance(x, Val):
                return Val(x.term)
            if isinstance(x, Tup):
                return Tup([cp(y) for y in x.items])
            return x

        return cp(v)
    if isinstance(v, Choice):
        return it.fork_value(v.cond, st, lambda s: _deepcopy(it, s, [v.a], k, node), lambda s: _deepcopy(it, s, [v.b], k, node))
    t = it.term(v, st)
    if t.op == "const":
        return v
    return Val(mk("ext", "copy.deepcopy", (t,), ()))


def _copycopy(it, st, a, k, node):
    v = it.resolve(a[0], st)
    if isinstance(v, Ref):
        return it.alloc(st, st.heap[v.addr].copy())
    t = it.term(v, st)
    return Val(t)


def _partial(it, st, a, k, node):
    f, pre, kw = a[0], a[1:], dict(k)
    return Builtin("partial", lambda i2, s2, a2, k2, n2: i2.call(f, list(pre) + list(a2), {**kw, **k2}, s2, n2))


def _reduce(it, st, a, k, node):
    c = it.concrete_iter(a[1], st)
    if c is None:
        return Val(mk("ext", "functools.reduce", it.arg_terms([x for x in a if not isinstance(x, Lazy)], st), ()))
    acc = a[2] if len(a) > 2 else None
    for x in c:
        acc = x if acc is None else it.call(a[0], [acc, x], {}, st, node)
    return acc


def _getfullargspec(it, st, a, k, node):
    v = it.resolve(a[0], st)
    r = it.hooks.ext_call(it, st, "inspect.getfullargspec", a, k, node)
    if r is not None:
        return r
    return Val(mk("ext", "inspect.getfullargspec", it.arg_terms(a, st), ()))


def _warn(it, st, a, k, node):
    it.event("warn", st, node, args=it.arg_terms(a, st))
    return Val(NONE)


def _chain(it, st, a, k, node):
    out = []
    for x in a:
        c = it.concrete_iter(x, st)
        if c is None:
            return Val(mk("ext", "itertools.chain", it.arg_terms(a, st), ()))
        out += c
    return it.alloc(st, ListObj(out))


def _chain_from(it, st, a, k, node):
    c = it.concrete_iter(a[0], st)
    if c is None:
        return Val(mk("ext", "itertools.chain.from_iterable", it.arg_terms(a, st), ()))
    return _chain(it, st, c, k, node)


def _islice(it, st, a, k, node):
    c = it.concrete_iter(a[0], st)
    b = [it.term(x, st) for x in a[1:]]
    if c is None or not all(x.op == "const" and (x.args[0] is None or isinstance(x.args[0], int)) for x in b):
        return Val(mk("ext", "itertools.islice", it.arg_terms(a, st), ()))
    v = it.resolve(a[0], st)
    out = c[slice(*[x.args[0] for x in b])]
    if isinstance(v, Ref) and getattr(st.heap[v.addr], "iterator", False):
        if len(b) != 1 or b[0].args[0] is None or it.in_symbolic_loop(v, st):
            return Val(mk("ext", "itertools.islice", it.arg_terms(a, st), ()))
        del st.obj_w(v.addr).items[:b[0].args[0]]
    return it.alloc(st, ListObj(out))


def _running(it, st, v, node, initial=None):
    c = it.concrete_iter(v, st)
    if c is None or not all(isinstance(x, Val) and it.kindof(x.term) == "scalar" for x in c):
        return None
    out, acc = ([initial], initial) if initial is not None else ([], None)
    for x in c:
        acc = x if acc is None else it.binop("add", acc, x, st, node)
        out.append(acc)
    return out


def _accumulate(it, st, a, k, node):
    r = _running(it, st, a[0], node, k.get("initial")) if len(a) == 1 and set(k) <= {"initial"} else None
    if r is None:
        return Val(mk("ext", "itertools.accumulate", it.arg_terms(a, st), tuple(sorted((kk, it.term(v, st)) for kk, v in k.items()))))
    return it.alloc(st, ListObj(r))


def _np_cumsum(it, st, a, k, node):
    r = _running(it, st, a[0], node) if len(a) == 1 and not k else None
    if r is not None and all(is_num(x.term) for x in r):
        return it.alloc(st, ListObj(r))
    return _call_np_plain(it.p, it, "cumsum", a, k, st, node)


def _namedtuple(it, st, a, k, node):
    """collections.namedtuple: a class whose instances hold their fields in order."""
    name = it.term(a[0], st)
    v = k.get("field_names", a[1] if len(a) > 1 else None)
    fs = None
    if v is not None:
        c = it.concrete_iter(v, st)
        t = it.term(v, st) if c is None else None
        if c is not None:
            fs = [it.term(x, st) for x in c]
            fs = [x.args[0] for x in fs] if all(x.op == "const" and isinstance(x.args[0], str) for x in fs) else None
        elif t.op == "const" and isinstance(t.args[0], str):
            fs = t.args[0].replace(",", " ").split()
    if fs is None or name.op != "const" or k.get("rename") is not None:
        return Val(mk("unknown", "namedtuple"))

    def getter(i):
        return Builtin(f"field{i}", lambda it, st, a, k, n: st.heap[a[0].addr].items[i])

    cls = Cls(name.args[0], f"{it.curmod()}.{name.args[0]}", [Ext("tuple")], {f: Prop(getter(i)) for i, f in enumerate(fs)}, it.curmod())
    cls.ns["_fields"] = Tup([Val(const(f)) for f in fs])

    def replace(it, st, a, k, n):
        o = st.heap[a[0].addr]
        kw = {f: k.get(f, x) for f, x in zip(fs, o.items)}
        if set(k) - set(fs):
            it.raise_type(st, n)
        return it.instantiate(o.cls, [], kw, st, n)

    cls.ns["_replace"] = Builtin("_replace", replace)
    cls.ns["_asdict"] = Builtin("_asdict", lambda it, st, a, k, n: it.alloc(st, DictObj({f: x for f, x in zip(fs, st.heap[a[0].addr].items)})))
    dflt = k.get("defaults")
    d = it.concrete_iter(dflt, st) if dflt is not None else []
    cls.ntfields = list(zip(fs, [None] * (len(fs) - len(d or [])) + list(d or [])))
    return cls


EXT = {
    "collections.namedtuple": _namedtuple,
    "functools.wraps": _wraps,
    "functools.partial": _partial,
    "functools.reduce": _reduce,
    "functools.lru_cache": lambda it, st, a, k, n: a[0] if a and isinstance(a[0], (Func, Bound)) else Builtin("id", _identity_deco),
    "functools.cache": _identity_deco,
    "functools.cached_property": lambda it, st, a, k, n: Prop(a[0]),
    "abc.abstractmethod": _identity_deco,
    "abc.abstractstaticmethod": lambda it, st, a, k, n: StaticM(a[0]),
    "dataclasses.dataclass": _dataclass,
    "collections.defaultdict": _defaultdict,
    "collections.OrderedDict": lambda it, st, a, k, n: it.p.builtin("dict").fn(it, st, a, k, n),
    "copy.deepcopy": _deepcopy,
    "copy.copy": _copycopy,
    "inspect.getfullargspec": _getfullargspec,
    "warnings.warn": _warn,
    "itertools.count": lambda it, st, a, k, n: Val(mk("count", it.term(a[0] if a else k.get("start", Val(ZERO)), st), it.term(a[1] if len(a) > 1 else k.get("step", Val(ONE)), st))),
    "itertools.chain": _chain,
    "itertools.chain.from_iterable": _chain_from,
    "itertools.islice": _islice,
    "itertools.accumulate": _accumulate,
    "operator.add": lambda it, st, a, k, n: it.binop("add", a[0], a[1], st, n),
}


def _np_array(copying):
    def f(it, st, a, k, node):
        v = it.resolve(a[0], st)
        kw = tuple(sorted((kk, it.term(x, st)) for kk, x in k.items()))
        if isinstance(v, Lazy):
            t = v.term(it, st)
        else:
            t = it.term(v, st)
        pr = frozenset() if copying and ("copy", FALSE) not in kw else it.provs(v, st)
        if kw or len(a) > 1:
            return Val(mk("npcall", "array", (t,) + tuple(it.arg_terms(a[1:], st)), kw), pr)
        return Val(np_term("array", [t], ()), pr)
    return f


def _np_arange(it, st, a, k, node):
    if k:
        return Val(mk("npcall", "arange", it.arg_terms(a, st), tuple(sorted((kk, it.term(x, st)) for kk, x in k.items()))))
    t = [it.term(x, st) for x in a]
    if len(t) == 1:
        return Val(mk("range", ZERO, t[0], ONE))
    return Val(mk("range", t[0], t[1], t[2] if len(t) > 2 else ONE))


def _np_sum(it, st, a, k, node):
    v = it.resolve(a[0], st)
    if not k and len(a) == 1 and isinstance(v, (Ref, Tup, Lazy)):
        c = it.concrete_iter(v, st)
        if c is not None and all(isinstance(x, (Val,)) for x in c):
            acc = None
            for x in c:
                acc = x if acc is None else it.binop("add", acc, x, st, node)
            # np.sum over a list of scalars/arrays adds *all* entries
            t = it.term(acc, st) if acc is not None else ZERO
            if all(it.kindof(x.term) == "scalar" for x in c):
                return Val(t)
            return Val(mk("npcall", "sum", (mk("list", *[x.term for x in c]),), ()))
        if isinstance(v, Lazy):
            return Val(mk("npcall", "sum", (v.term(it, st),), ()))
    return it.p.call_np_plain(it, "sum", a, k, st, node)


def _call_np_plain(self, it, name, args, kwargs, st, node):
    saved = NP_VALUE.pop(name, None)
    try:
        return self.call_np(it, name, args, kwargs, st, node)
    finally:
        if saved is not None:
            NP_VALUE[name] = saved


Program.call_np_plain = _call_np_plain


def _np_vectorize(it, st, a, k, node):
    f = a[0]
    sig = it.term(k["signature"], st) if "signature" in k else NONE

    def call(it2, st2, a2, k2, node2):
        if isinstance(f, Ext):
            return it2.call(f, a2, k2, st2, node2)
        return Val(mk("ext", "vectorized", (it2.term(f, st2),) + it2.arg_terms(a2, st2), ()))

    return Builtin("vectorized", call)


def _np_finfo(it, st, a, k, node):
    return Val(mk("npcall", "finfo", it.arg_terms(a, st), ()))


def _ufunc_list(it, st, a, k, node):
    return None


NP_VALUE = {
    "array": _np_array(True),
    "array_": _np_array(False),
    "arange": _np_arange,
    "sum": _np_sum,
    "cumsum": _np_cumsum,
    "vectorize": _np_vectorize,
    "copy": lambda it, st, a, k, n: Val(it.term(a[0], st)),
}
