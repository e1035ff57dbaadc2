"""Harness: abstractly execute manifold classes and their methods."""
from .terms import *
from .values import *
from .interp import Interp, Hooks, Dead, Frame, Unsupported
from .program import Program
from .opt import fresh_interp, entry_node, _Node

MOD = "pymanopt.manifolds."

CLASSES = {
    "Euclidean": "euclidean", "ComplexEuclidean": "euclidean", "Symmetric": "euclidean",
    "SkewSymmetric": "euclidean", "Sphere": "sphere", "SphereSubspaceIntersection": "sphere",
    "SphereSubspaceComplementIntersection": "sphere", "Stiefel": "stiefel", "Grassmann": "grassmann",
    "ComplexGrassmann": "grassmann", "SpecialOrthogonalGroup": "group", "UnitaryGroup": "group",
    "PSDFixedRank": "psd", "PSDFixedRankComplex": "psd", "Elliptope": "psd",
    "SymmetricPositiveDefinite": "positive_definite", "HermitianPositiveDefinite": "positive_definite",
    "SpecialHermitianPositiveDefinite": "positive_definite", "FixedRankEmbedded": "fixed_rank",
    "ComplexCircle": "complex_circle", "Positive": "positive", "PoincareBall": "hyperbolic",
    "Oblique": "oblique", "Product": "product",
}


class ManHooks(Hooks):
    """Shape queries and integer facts are answered by ``model``."""

    def __init__(self, program, model):
        self.p = program
        self.model = model
        self.opaque_funcs = {}

    def attr(self, it, st, base, name):
        r = self.model.attr(base.term, name)
        if r is None:
            return None
        if isinstance(r, tuple):
            return Tup([Val(x) for x in r])
        return Val(r)

    def decide(self, term):
        return self.model.decide(term)

    def kind(self, t):
        return self.model.kind(t)

    def isinstance_(self, t, cname):
        return self.model.isinstance_(t, cname)

    def enter_func(self, it, f, args):
        h = self.opaque_funcs.get(f.qual) or self.opaque_funcs.get(f.name)
        if h is not None:
            return h(it, f, args)
        return None


class ManRun:
    """A manifold object under one configuration."""

    def __init__(self, program, clsname, args, kwargs, model, opaque=None):
        self.program = program
        self.clsname = clsname
        self.model = model
        self.hooks = ManHooks(program, model)
        if opaque:
            self.hooks.opaque_funcs.update(opaque)
        self.it, self.st = fresh_interp(program, self.hooks)
        self.cls = program.get(MOD + CLASSES[clsname], clsname)
        L = self.lift
        self.raised = None
        try:
            self.ref = self.it.instantiate(self.cls, [L(a) for a in args], {k: L(v) for k, v in kwargs.items()}, self.st, entry_node("init"))
        except Dead:
            self.ref = None
        self.init_sinks = list(self.it.sinks[0])
        self.init_pc = self.st.pc

    def lift(self, v):
        if isinstance(v, Term):
            return Val(v, frozenset(["constructor argument"]))
        return self.it.lift(v)

    def get(self, name):
        st = self.st.copy()
        v = self.it.getattr(self.ref, name, st, entry_node("get"))
        return v, st

    def call(self, name, *args):
        """Execute a method; returns Call."""
        st = self.st.copy()
        it = self.it
        n0 = len(it.events)
        it.sinks.append([])
        vals = []
        for i, a in enumerate(args):
            if isinstance(a, Term):
                vals.append(Val(a, frozenset(["arg%d" % i])))
            else:
                vals.append(it.lift(a))
        value = None
        try:
            f = it.getattr(self.ref, name, st, entry_node("m:" + name))
            value = it.call(f, vals, {}, st, entry_node("m:" + name))
        except Dead:
            pass
        sink = it.sinks.pop()
        return Call(self, name, value, st, it.events[n0:], sink)

    def where(self, name):
        """Location of the implementation of a method."""
        f, c = self.cls.lookup(name)
        w = f
        while isinstance(w, (Prop, StaticM, ClassM)):
            w = w.fget if isinstance(w, Prop) else w.f
        if isinstance(w, Func):
            node = w.node
            return f"{w.module}:{getattr(node, 'lineno', '?')} {c.name}.{name}"
        return f"{self.clsname}.{name}"


class Call:
    def __init__(self, run, name, value, st, events, sink):
        self.run, self.name, self.value, self.st, self.events, self.sink = run, name, value, st, events, sink

    @property
    def raises(self):
        return sorted({s[0] for s in self.sink})

    def terms(self):
        """Result as nested tuples of terms, or None."""
        return flatten_value(self.run.it, self.value, self.st)


def flatten_value(it, v, st):
    if v is None:
        return None
    v = it.resolve(v, st)
    if isinstance(v, Tup):
        return tuple(flatten_value(it, x, st) for x in v.items)
    if isinstance(v, Ref):
        o = st.heap[v.addr]
        if o.kind in ("list", "inst") and o.items is not None:
            return tuple(flatten_value(it, x, st) for x in o.items)
    return it.term(v, st)
