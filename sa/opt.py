"""Harness: run the abstract interpreter over the optimizers' public API."""
from .terms import *
from .values import *
from .interp import Interp, Hooks, Dead, Frame
from .program import Program

PROBLEM = sym("problem")
MANIFOLD = mk("attr", PROBLEM, "manifold")

SCALAR_M = {"inner_product", "norm", "dist", "cost"}
ARRAY_M = {
    "projection", "retraction", "exp", "log", "transport", "to_tangent_space", "pair_mean",
    "zero_vector", "random_point", "random_tangent_vector", "euclidean_to_riemannian_gradient",
    "euclidean_to_riemannian_hessian", "embedding", "riemannian_gradient", "riemannian_hessian",
    "euclidean_gradient", "euclidean_hessian", "preconditioner",
}

OPTS = {
    "SteepestDescent": "pymanopt.optimizers.steepest_descent",
    "ConjugateGradient": "pymanopt.optimizers.conjugate_gradient",
    "TrustRegions": "pymanopt.optimizers.trust_regions",
    "NelderMead": "pymanopt.optimizers.nelder_mead",
    "ParticleSwarm": "pymanopt.optimizers.particle_swarm",
}


class OptHooks(Hooks):
    def __init__(self, program):
        self.p = program
        self.sigs = {}
        m = program.get("pymanopt.manifolds.manifold", "Manifold")
        for name, f in m.ns.items():
            w = f
            while isinstance(w, Func) and w.wrapped is not None:
                w = w.wrapped
            if isinstance(w, Func):
                self.sigs[name] = [a.arg for a in w.node.args.args][1:]
        self.true = set()
        self.assume = {}
        self.opaque_funcs = {}

    def is_manifold(self, t):
        return t is MANIFOLD or (t.op == "sym" and t.args[0].startswith("manifold"))

    def mcall(self, it, st, base, name, args, kwargs, node):
        if self.is_manifold(base.term) and kwargs and name in self.sigs:
            sig = self.sigs[name]
            full = list(args)
            kw = dict(kwargs)
            for s in sig[len(full):]:
                if s in kw:
                    full.append(kw.pop(s))
                else:
                    break
            if not kw:
                f = Val(mk("attr", base.term, name))
                return it.call_opaque(f, full, {}, st, node)
        return None

    def impure(self, base, name):
        return name in ("random_point", "random_tangent_vector", "search")

    def kind(self, t):
        if t.op == "mcall":
            if t.args[0] in SCALAR_M:
                return "scalar"
            if t.args[0] in ARRAY_M:
                return "array"
        if t.op == "fresh":
            l = t.args[0]
            if "random_point" in l or "random_tangent" in l:
                return "array"
            if l == "centroid":
                return "array"
            if l == "time":
                return "scalar"
        if t.op == "attr":
            if t.args[1] in ("dim", "typical_dist", "num_values"):
                return "scalar"
        if t.op == "random":
            return "scalar" if not t.args[2] and not t.args[3] else "array"
        if t.op == "sym":
            n = t.args[0]
            if n in ("initial_point", "x", "d"):
                return "array"
            if n.startswith("cfg."):
                return "scalar"
        if t.op == "select" and t.args[1] is ZERO and t.args[0].op == "fresh" and "search" in t.args[0].args[0]:
            return "scalar"
        if t.op == "select" and t.args[1] is ONE and t.args[0].op == "fresh" and "search" in t.args[0].args[0]:
            return "array"
        return None

    def isinstance_(self, t, cname):
        return self.assume.get(("isinstance", t, cname))

    def decide(self, t):
        return self.assume.get(t)

    def enter_func(self, it, f, args):
        h = self.opaque_funcs.get(f.qual) or self.opaque_funcs.get(f.name)
        if h is not None and (f.module, f.name) not in self.true:
            return h(it, f, args)
        return None


class Run:
    """Result of abstractly executing one entry point."""

    def __init__(self, it, st, value, self_ref, label):
        self.it = it
        self.st = st
        self.value = value
        self.self_ref = self_ref
        self.label = label
        self.events = it.events
        self.phis = it.phis


def func_params(f):
    a = f.node.args
    return [x.arg for x in a.args][1:], [x.arg for x in a.kwonlyargs]


def fresh_interp(program, hooks):
    it = Interp(program, hooks)
    it.counter = 1000000
    it.phis = {}
    st = program.state.copy()
    env = ("top",)
    st.envs[env] = {"$captured": True}
    st.own_e.add(env)
    it.frames.append(Frame("<entry>", env))
    it.modstack.append("<entry>")
    return it, st


class _Node:
    lineno = 0
    def __init__(self, n=0):
        self.lineno = n


_NODES = {}


def entry_node(key):
    return _NODES.setdefault(key, _Node())


def instantiate(it, st, program, clsname, overrides=None):
    mod = OPTS[clsname]
    cls = program.get(mod, clsname)
    init, owner = cls.lookup("__init__")
    names = []
    for c in cls.mro():
        if isinstance(c, Cls) and "__init__" in c.ns:
            pos, kwo = func_params(c.ns["__init__"])
            names += [n for n in pos + kwo if n not in names]
    kwargs = {}
    for n in names:
        kwargs[n] = Val(sym("cfg." + n))
    for k, v in (overrides or {}).items():
        kwargs[k] = it.lift(v)
    return it.instantiate(cls, [], kwargs, st, entry_node("init"))


def run_optimizer(program, clsname, overrides=None, run_kwargs=None, label="", setup=None, hooks=None, after_init=None):
    hooks = hooks or OptHooks(program)
    it, st = fresh_interp(program, hooks)
    if setup:
        setup(it, st, hooks)
    ref = instantiate(it, st, program, clsname, overrides)
    # events of the constructor are kept but marked
    n0 = len(it.events)
    if after_init:
        after_init(it, st, ref)
    cls = st.heap[ref.addr].cls
    kw = {k: it.lift(v) for k, v in (run_kwargs or {}).items()}
    f = it.getattr(ref, "run", st, entry_node("run"))
    try:
        v = it.call(f, [Val(PROBLEM, frozenset(["problem"]))], kw, st, entry_node("run"))
    except Dead:
        v = None
    r = Run(it, st, v, ref, label or clsname)
    r.init_events = n0
    r.raises = it.sinks[0]
    return r
