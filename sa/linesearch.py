"""Abstract execution of the line searchers' search() on symbolic arguments."""
from .terms import *
from .values import *
from . import opt_common as oc
from .opt import *

X, D, F0, DF0 = sym("x"), sym("d"), sym("f0"), sym("df0")
VECTOR_BASE = {D: X}
MOD = "pymanopt.optimizers.line_search"
_RUNS = {}


def classes(p):
    out = []
    for n, c in sorted(p.namespace(MOD).items()):
        if isinstance(c, Cls) and c.lookup("search")[0] is not None:
            out.append((n, c))
    return out


class LRun(oc.ORun):
    pass


def runs(root=None):
    root = root or oc.ROOT
    out = []
    p = oc.program(root)
    for n, c in classes(p):
        for mem in (False, True):
            k = (root, n, mem)
            if k not in _RUNS:
                try:
                    _RUNS[k] = one(p, n, c, mem)
                except Exception:
                    if __import__("os").environ.get("SA_DEBUG"):
                        raise
                    _RUNS[k] = None
            if _RUNS[k] is not None:
                out.append(_RUNS[k])
    return out


def one(p, name, cls, mem, hooks=None):
    hooks = hooks or OptHooks(p)
    it, st = fresh_interp(p, hooks)
    init, _ = cls.lookup("__init__")
    kwargs = {}
    if init is not None:
        pos, kwo = func_params(init)
        kwargs = {q: Val(sym("cfg." + q)) for q in pos + kwo}
    ref = it.instantiate(cls, [], kwargs, st, entry_node("init"))
    memory = []
    if mem:
        o = st.obj_w(ref.addr)
        for a, v in list(o.attrs.items()):
            if isinstance(v, Val) and v.term is NONE:
                o.attrs[a] = Val(sym("memory." + a))
                hooks.assume[Isnone(sym("memory." + a))] = False
                memory.append(a)
    n0 = len(it.events)
    f = it.getattr(ref, "search", st, entry_node("run"))
    obj = Val(mk("attr", PROBLEM, "cost"))
    args = [obj, Val(MANIFOLD), Val(X, frozenset(["x"])), Val(D, frozenset(["d"])), Val(F0), Val(DF0)]
    v = it.call(f, args, {}, st, entry_node("run"))
    r = Run(it, st, v, ref, name)
    r.init_events = n0
    R = LRun("linesearch", f"{name}[{'memory' if mem else 'first search'}]", r)
    R.name, R.mem, R.memory = name, mem, memory
    t = it.term(v, st)
    R.result = t
    R.step = Select(t, ZERO)
    R.newx = Select(t, ONE)
    return R
