"""C11: inputs are never modified."""
import os

from ..man import ManRun
from ..interp import Dead
from ..manobl import *
from .. import opt_common as oc
from ..opt_common import *
from .. import linesearch
from ..interp import Hooks
from . import c28

RULE = (
    "Alias and effect analysis: every array, vector, population and sequence passed to a public operation carries its origin through "
    "assignments, views (transposes, reshapes, slices, real parts), calls, containers and loops; every in-place effect (item assignment, "
    "augmented assignment of arrays, out= and overwrite_ arguments, mutating methods and functions) is an obligation that its target does "
    "not share memory with an input. Results of opaque operations that may return an argument itself carry that argument's origin."
)
FLOOR = 800

# arguments whose memory the result of an opaque operation may share: user
# functions may return their arguments, line searches their starting point;
# the rows of manifold operations are computed from the manifolds.
ALIASES = {
    "euclidean_gradient": {0}, "riemannian_gradient": {0}, "euclidean_hessian": {0, 1}, "riemannian_hessian": {0, 1},
    "preconditioner": {0, 1}, "search": {2},
}


def shares(callee, args):
    r = frozenset()
    if callee.op == "attr":
        for i in ALIASES.get(callee.args[1], ()):
            if i < len(args):
                r |= getattr(args[i], "prov", frozenset())
    return r


def summarise(c, op):
    """Record which arguments the result of an operation shares memory with."""
    if c is None:
        return
    for p in c:
        if p.startswith("arg"):
            ALIASES.setdefault(op, set()).add(int(p[3:]))


class AliasOptHooks(OptHooks):
    def alias(self, callee, args):
        return shares(callee, args)

    def is_list(self, t):
        return t is sym("initial_point") and self.population


    population = False


VIEWS = ("transpose", "reshape", "ravel", "squeeze", "swapaxes", "diagonal", "expand_dims", "moveaxis", "atleast_1d", "atleast_2d", "real", "imag", "broadcast_to", "matrix_transpose", "flip")


def arraylike(t, population):
    """A view of an array, or an element of a population or structured point."""
    if t.op == "ite":
        return arraylike(t.args[1], population) and arraylike(t.args[2], population)
    if t.op == "npcall":
        return t.args[0] in VIEWS
    if t.op == "mcall":
        return t.args[0] in VIEWS
    if t.op == "attr":
        return t.args[1] in ("T", "real", "imag", "flat", "H", "mT") or t.args[1] in FIELDS
    if t.op in ("slice", "gather"):
        return True
    if t.op in ("select", "hole"):
        return population
    return False


def origin(p):
    return sorted({x[5:] if x.startswith("elem:") else x for x in p})


class Effects:
    """Judges the in-place effects of one execution."""

    def __init__(self, rep, population):
        self.rep, self.population = rep, population
        self.n = 0
        self.bad = 0

    def feed(self, it, events, label, names=None):
        rep = self.rep
        for e in events:
            if e.kind not in ("mutate", "augassign", "setattr_opaque"):
                continue
            d = e.data
            self.n += 1
            rep.count("in-place effects")
            prov = d.get("prov") or frozenset()
            if e.kind == "augassign" and d["vkind"] == "scalar":
                continue
            if e.kind == "mutate" and d.get("addr") is not None:
                # the sequence itself is a copy; only its elements are shared
                prov = frozenset(x for x in prov if not x.startswith("elem:"))
            if not prov:
                continue
            what = d.get("how") or ("augmented assignment" if e.kind == "augassign" else "attribute assignment")
            loc = f"{e.mod}:{getattr(e.node, 'lineno', '?')} {e.func}"
            site = f"{e.mod}.{e.func}"
            if e.kind == "augassign" and d["vkind"] is None and not arraylike(d["term"], self.population):
                rep.unk(f"effect@{label}", f"augmented assignment to a value of unknown kind sharing {origin(prov)}", loc)
                self.bad += 1
                continue
            rep.bad(f"effect@{site}", f"{label}: {what} modifies memory of {', '.join(origin(prov))}", loc)
            self.bad += 1

    def close(self, label, loc=""):
        if not self.bad:
            self.rep.ok(f"effects@{label}", f"{self.n} in-place effects, none on an input", loc)


LETTERS = dict(c28.SINGLE, inner_product="xuv", norm="xu", dist="xy", random_tangent_vector="x")
NAME = {"x": X, "y": Y, "u": U, "v": V, "w": W, "g": G, "h": Hh}


def manifolds(rep, program):
    def body(o):
        for op, letters in LETTERS.items():
            c = o.r.call(op, *[NAME[a] for a in letters])
            rep.count("operations executed symbolically")
            summarise(o.r.it.provs(c.value, c.st) if c.value is not None else None, op)
            judge(rep, o.r.it, c.events, f"{o.s.label()}.{op}", o.r.where(op))

    each_space(rep, program, body)


def judge(rep, it, events, label, loc="", population=False):
    ef = Effects(rep, population)
    ef.feed(it, events, label)
    ef.close(label, loc)


def arg(name):
    return Val(sym(name), frozenset([name]))


class FieldHooks(Hooks):
    """Fields of structured points share their memory."""

    def attr(self, it, st, base, name):
        if name in FIELDS and base.prov:
            return Val(mk("attr", base.term, name), base.prov)
        return None

    def alias(self, callee, args):
        return shares(callee, args)


FIELDS = {"Up", "M", "Vp", "u", "s", "vt", "U", "S", "V"}


def structured(rep, program):
    """FixedRankEmbedded and Product on structured points."""
    r = ManRun(program, "FixedRankEmbedded", [sym("m"), sym("n"), sym("k")], {}, c28.Facts())
    runs_ = [("FixedRankEmbedded", r, arg)]
    for m in (1, 2, 3):
        r = ManRun(program, "Product", [Tup([Val(sym("M%d" % i)) for i in range(m)])], {}, c28.Facts())
        runs_.append(("Product[%d]" % m, r, arg))
        runs_.append(("Product[%d] on literal sequences" % m, r, lambda n, m=m: Tup([arg("%s%d" % (n, i)) for i in range(m)])))
    for label, r, make in runs_:
        if r.ref is None:
            rep.unk(f"construct@{label}", "construction raises")
            continue
        r.hooks.attr = FieldHooks.attr.__get__(r.hooks)
        r.hooks.alias = FieldHooks.alias.__get__(r.hooks)
        for op, letters in LETTERS.items():
            st = r.st.copy()
            n0 = len(r.it.events)
            r.it.sinks.append([])
            try:
                f = r.it.getattr(r.ref, op, st, entry_node("m:" + op))
                r.it.call(f, [make(a) for a in letters], {}, st, entry_node("m:" + op))
            except Dead:
                pass
            except Exception as e:
                if os.environ.get("SA_DEBUG"):
                    raise
                rep.unk(f"analysis@{label}.{op}", "analysis failed: %r" % e)
                continue
            finally:
                r.it.sinks.pop()
            rep.count("operations executed symbolically")
            judge(rep, r.it, r.it.events[n0:], f"{label}.{op}", r.where(op), True)


PUBLIC = {
    "pymanopt.tools.multi": ("multitransp", "multihconj", "multisym", "multiherm", "multiskew", "multiskewh", "multieye", "multilogm", "multiexpm", "multiqr"),
    "pymanopt.tools": ("bisect_sequence", "is_sequence"),
    "pymanopt.tools.diagnostics": ("check_directional_derivative", "check_gradient", "check_hessian", "check_retraction", "identify_linear_piece"),
    "pymanopt.optimizers.nelder_mead": ("compute_centroid",),
}


def functions(rep, program):
    """Module-level helpers, problem methods, line searches and diagnostics."""
    for mod, names in PUBLIC.items():
        space = program.namespace(mod)
        for name in names:
            f = space.get(name)
            while isinstance(f, Func) and f.wrapped is not None:
                f = f.wrapped
            if not isinstance(f, Func):
                rep.unk(f"analysis@{mod}.{name}", "not found")
                continue
            hooks = AliasOptHooks(program)
            hooks.kind = kind_of.__get__(hooks)
            it, st = fresh_interp(program, hooks)
            a = f.node.args
            args, kw = [], {}
            for q in a.args + a.kwonlyargs:
                v = Val(PROBLEM) if q.arg == "problem" else Val(MANIFOLD) if q.arg == "manifold" else arg("arg." + q.arg)
                if q.arg in ("symmetric", "positive_definite", "use_quadratic_model", "k", "n", "window_length"):
                    v = Val(sym("arg." + q.arg))
                if q in a.args:
                    args.append(v)
                else:
                    kw[q.arg] = v
            execute(rep, it, st, f, args, kw, f"{mod}.{name}")


def kind_of(self, t):
    if t.op == "sym" and t.args[0].startswith("arg."):
        return "array"
    return OptHooks.kind(self, t)


def execute(rep, it, st, f, args, kw, label):
    n0 = len(it.events)
    it.sinks.append([])
    try:
        it.call(f, args, kw, st, entry_node(label))
    except Dead:
        pass
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        rep.unk(f"analysis@{label}", "analysis failed: %r" % e)
        return
    finally:
        it.sinks.pop()
    rep.count("functions executed symbolically")
    w = f
    while isinstance(w, Bound):
        w = w.func
    judge(rep, it, it.events[n0:], label, f"{getattr(w, 'module', '')}:{getattr(getattr(w, 'node', None), 'lineno', '?')}")


def linesearches(rep):
    program = oc.program(oc.ROOT)
    for name, cls in linesearch.classes(program):
        for mem in (False, True):
            try:
                R = linesearch.one(program, name, cls, mem, hooks=AliasOptHooks(program))
            except Exception as e:
                if os.environ.get("SA_DEBUG"):
                    raise
                rep.unk(f"analysis@{name}", "analysis failed: %r" % e)
                continue
            rep.count("functions executed symbolically")
            judge(rep, R.it, R.events, R.label + ".search", f"{linesearch.MOD}:{name}.search")


LAYOUTS = {"array": const(1), "tuple of 3": const(3), "product": Tup([Val(const(1)), Val(const(2)), Val(const(1))]), "product, structured first": Tup([Val(const(2)), Val(const(1))])}
OPERATORS = {
    "cost": "x", "euclidean_gradient": "x", "riemannian_gradient": "x", "euclidean_hessian": "xu", "riemannian_hessian": "xu", "preconditioner": "xu",
}


def problem_objects(rep, program, make=None):
    """Problems on array, tuple and product points, derivatives given or generated."""
    for lay, layout in LAYOUTS.items():
        for given in ((), ("euclidean_gradient", "euclidean_hessian"), ("riemannian_gradient", "riemannian_hessian")):
            hooks = (make or AliasOptHooks)(program)
            hooks.isinstance_ = lambda t, c: True if c.split(".")[-1] == "Function" else False if c in ("list", "tuple") and t.op == "sym" and len(t.args[0]) == 2 else None
            real = hooks.attr

            def attr(it, st, base, name, layout=layout):
                if base.term is MANIFOLD and name == "point_layout":
                    return layout if isinstance(layout, Tup) else Val(layout)
                return None

            hooks.attr = attr
            hooks.is_manifold = lambda t: t is MANIFOLD
            it, st = fresh_interp(program, hooks)
            cls = program.get("pymanopt.core.problem", "Problem")
            kw = {g: Val(sym("user." + g)) for g in given}
            label = f"Problem[{lay}; {'given ' + given[0].split('_')[0] if given else 'generated'}]"
            it.sinks.append([])
            try:
                ref = it.instantiate(cls, [Val(MANIFOLD), Val(sym("user.cost"))], kw, st, entry_node("init"))
            except Dead:
                ref = None
            it.sinks.pop()
            if ref is None:
                rep.unk(f"analysis@{label}", "construction raises")
                continue
            yield label, it, st, ref, layout


def problems(rep, program):
    """Problem methods on array, tuple and product points, derivatives given or generated."""
    for label, it, st, ref, layout in problem_objects(rep, program):
        for op, letters in OPERATORS.items():
            args = []
            for a in letters:
                if isinstance(layout, Tup):
                    args.append(Tup([arg(a + str(i)) if n.term.args[0] == 1 else Tup([arg(a + str(i) + "0"), arg(a + str(i) + "1")]) for i, n in enumerate(layout.items)]))
                else:
                    args.append(arg(a))
            s = st.copy()
            it.sinks.append([])
            try:
                f = it.getattr(ref, op, s, entry_node("p:" + op))
            except Dead:
                f = None
            it.sinks.pop()
            if f is None:
                continue
            execute(rep, it, s, f, args, {}, f"{label}.{op}")
            if isinstance(layout, Tup):
                s = st.copy()
                lists = []
                for a in letters:
                    # the same structure as the user's own lists
                    comp = [arg(a + str(i)) if n.term.args[0] == 1 else it.alloc(s, ListObj([arg(a + str(i) + "0"), arg(a + str(i) + "1")], None, frozenset([a]))) for i, n in enumerate(layout.items)]
                    lists.append(it.alloc(s, ListObj(comp, None, frozenset([a]))))
                it.sinks.append([])
                try:
                    f = it.getattr(ref, op, s, entry_node("p:" + op))
                except Dead:
                    f = None
                it.sinks.pop()
                if f is not None:
                    execute(rep, it, s, f, lists, {}, f"{label}.{op} on lists")


def run(rep, tier):
    program = load(oc.ROOT)
    part(rep, manifolds, program)
    rep.analysed["operations that may return an argument"] = {k: sorted(v) for k, v in sorted(ALIASES.items())}
    part(rep, structured, program)
    part(rep, functions, oc.program(oc.ROOT))
    part(rep, problems, oc.program(oc.ROOT))
    part(rep, linesearches)
    part(rep, optimizers)


def part(rep, f, *a):
    try:
        f(rep, *a)
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        rep.unk(f"analysis@{f.__name__}", "analysis failed: %r" % e)


def optimizers(rep):
    program = oc.program(oc.ROOT)
    for o, lab, ov, rk, su in configs():
        hooks = AliasOptHooks(program)
        hooks.population = o in ("NelderMead", "ParticleSwarm")
        try:
            r = run_optimizer(program, o, ov, rk, lab, su, hooks=hooks)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"analysis@{lab}", "analysis failed: %r" % e)
            continue
        rep.count("optimizer configurations")
        judge(rep, r.it, r.events, lab, f"{OPTS[o]}:{o}.run", hooks.population)
