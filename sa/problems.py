"""Problem objects on every point layout, executed on literal points.

User functions, generated derivative operators and manifold conversions are
opaque; calls of operators that return one value per component return that many
values, manifold operations return values of the structure of the point.
"""
from .opt_common import *
from .interp import Dead
from .opt import entry_node

CONV = ("embedding", "euclidean_to_riemannian_gradient", "euclidean_to_riemannian_hessian", "projection", "to_tangent_space")
COST, PREC = sym("user.cost"), sym("user.preconditioner")
GIVEN = ("euclidean_gradient", "riemannian_gradient", "euclidean_hessian", "riemannian_hessian")
LETTERS = {
    "cost": "x", "euclidean_gradient": "x", "riemannian_gradient": "x", "euclidean_hessian": "xu", "riemannian_hessian": "xu", "preconditioner": "xu",
}
COMBINATIONS = [
    (), ("euclidean_gradient",), ("riemannian_gradient",), ("euclidean_hessian",), ("riemannian_hessian",),
    ("euclidean_gradient", "euclidean_hessian"), ("riemannian_gradient", "riemannian_hessian"),
    ("euclidean_gradient", "riemannian_hessian"), ("riemannian_gradient", "euclidean_hessian"),
]
LAYOUTS = [1, 2, 3, (1,), (2,), (1, 1), (1, 2, 1), (2, 1), (1, 3), (2, 2), (3, 1, 2)]
QUICK = [1, 3, (1,), (2,), (1, 1), (1, 2, 1), (2, 1)]


def size(layout):
    return layout if isinstance(layout, int) else sum(layout)


def shape(layout, leaves, mkseq=tuple):
    """leaves arranged in the structure of a point."""
    leaves = list(leaves)
    if layout == 1:
        return leaves[0]
    if isinstance(layout, int):
        return mkseq(leaves)
    out, i = [], 0
    for g in layout:
        out.append(leaves[i] if g == 1 else mkseq(leaves[i:i + g]))
        i += g
    return mkseq(out)


def names(letter, layout):
    n = size(layout)
    return [sym(letter)] if layout == 1 else [sym(f"{letter}{i}") for i in range(n)]


class ProblemHooks(OptHooks):
    """opaque calls return values with the structure of the point."""

    def __init__(self, program, layout, as_list):
        OptHooks.__init__(self, program)
        self.layout = layout
        self.as_list = as_list
        for g in GIVEN:
            self.assume[Isnone(sym("user." + g))] = False
        self.assume[Isnone(COST)] = False
        self.assume[Isnone(PREC)] = False
        self.operators = {sym("user." + g) for g in GIVEN}
        self.extra = 0

    def is_manifold(self, t):
        return t is MANIFOLD

    def isinstance_(self, t, c):
        short = c.split(".")[-1]
        if short == "Function":
            return t.op == "sym" and t.args[0].startswith("user.") and t is not PREC
        if short in ("list", "tuple", "Sequence", "Iterable"):
            # a literal sequence never gets here: arrays are no sequences
            return False
        return None

    def attr(self, it, st, base, name):
        if base.term is MANIFOLD:
            if name == "point_layout":
                if isinstance(self.layout, int):
                    return Val(const(self.layout))
                items = [Val(const(g)) for g in self.layout]
                return it.alloc(st, ListObj(items, None, frozenset())) if self.as_list else Tup(items)
            if name == "num_values":
                return Val(const(size(self.layout)))
        return None

    def values(self, it, st, t):
        n = size(self.layout) + self.extra
        vals = [Val(mk("select", t, const(i))) for i in range(n)]
        return it.alloc(st, ListObj(vals, None, frozenset())) if self.as_list else Tup(vals)

    def call_(self, it, st, ft, args, kwargs, node):
        op = ft in self.operators or (ft.op == "mcall" and ft.args[1] is COST and ft.args[0] in ("get_gradient_operator", "get_hessian_operator"))
        if not op:
            return None
        t = mk("call", ft, tuple(clean(a) for a in it.arg_terms(args, st)), tuple(sorted((k, clean(it.term(v, st))) for k, v in kwargs.items())))
        if self.layout == 1:
            return Val(t)
        return self.values(it, st, t)

    def mcall(self, it, st, base, name, args, kwargs, node):
        if base.term is not MANIFOLD or name not in self.sigs:
            return None
        full = list(args)
        kw = dict(kwargs)
        for s in self.sigs[name][len(full):]:
            if s not in kw:
                break
            full.append(kw.pop(s))
        t = mk("mcall", name, base.term, tuple(clean(a) for a in it.arg_terms(full, st)), tuple(sorted((k, clean(it.term(v, st))) for k, v in kw.items())))
        if self.layout == 1:
            return Val(t)
        if name in CONV:
            n = size(self.layout)
            return self.structured(it, st, t)
        return Val(t)

    def structured(self, it, st, t):
        return struct_value(it, st, self.layout, [Val(mk("select", t, const(i))) for i in range(size(self.layout))], False)


def struct_value(it, st, layout, leaves, lists):
    def seq(xs):
        return it.alloc(st, ListObj(list(xs), None, frozenset())) if lists else Tup(list(xs))
    return shape(layout, leaves, seq)


def clean(t):
    """lists and tuples are the same sequence."""
    if not isinstance(t, Term):
        return t
    if t.op in ("list", "tuple"):
        return mk("tuple", *[clean(a) for a in t.args])
    if t.op == "mcall":
        return mk("mcall", t.args[0], clean(t.args[1]), tuple(clean(a) for a in t.args[2]), tuple((k, clean(v)) for k, v in t.args[3]))
    if t.op == "call":
        return mk("call", clean(t.args[0]), tuple(clean(a) for a in t.args[1]), tuple((k, clean(v)) for k, v in t.args[2]))
    if t.op == "select":
        return mk("select", clean(t.args[0]), t.args[1])
    return t


def result(it, st, v, depth=0):
    """nested Python tuples of terms"""
    if depth > 5:
        return None
    v = it.resolve(v, st)
    if isinstance(v, Tup):
        return tuple(result(it, st, x, depth + 1) for x in v.items)
    if isinstance(v, Ref):
        o = st.heap[v.addr]
        items = getattr(o, "items", None)
        if o.kind in ("list", "inst") and items is not None:
            return tuple(result(it, st, x, depth + 1) for x in items)
    t = it.term(v, st)
    if t.op in ("list", "tuple"):
        return tuple(clean(a) for a in t.args)
    return clean(t)


class Case:
    def __init__(self, label, it, st, ref, layout, given, prec, hooks):
        self.label, self.it, self.st, self.ref, self.layout, self.given, self.prec, self.hooks = label, it, st, ref, layout, given, prec, hooks

    def args(self, op, st, lists=False):
        return [struct_value(self.it, st, self.layout, [Val(n) for n in names(a, self.layout)], lists) for a in LETTERS[op]]

    def call(self, op, st, lists=False):
        """(value or None, raised)"""
        it = self.it
        it.sinks.append([])
        v = None
        try:
            f = it.getattr(self.ref, op, st, entry_node("p:" + op))
            v = it.call(f, self.args(op, st, lists), {}, st, entry_node("pc:" + op))
        except Dead:
            pass
        finally:
            raised = it.sinks.pop()
        return v, raised

    # -- what the property demands ------------------------------------------
    def operator(self, op, args):
        """one value per component"""
        kind = "gradient" if "gradient" in op else "hessian"
        f = sym("user." + op) if op in self.given else mk("mcall", f"get_{kind}_operator", COST, (), ())
        flat = [n for a in args for n in a]
        t = mk("call", f, tuple(flat), ())
        if self.layout == 1:
            return [t]
        return [mk("select", t, const(i)) for i in range(size(self.layout))]

    def convert(self, name, *args):
        """manifold operation on structured arguments"""
        ts = tuple(to_term(shape(self.layout, a)) for a in args)
        t = mk("mcall", name, MANIFOLD, ts, ())
        if self.layout == 1:
            return [t]
        return [mk("select", t, const(i)) for i in range(size(self.layout))]

    def expected(self, op):
        x, u = names("x", self.layout), names("u", self.layout)
        if op == "cost":
            return mk("call", COST, tuple(x), ())
        if op == "euclidean_gradient":
            return shape(self.layout, self.operator(op, [x]))
        if op == "riemannian_gradient":
            if op in self.given:
                return shape(self.layout, self.operator(op, [x]))
            return shape(self.layout, self.convert("euclidean_to_riemannian_gradient", x, self.operator("euclidean_gradient", [x])))
        if op == "euclidean_hessian":
            return shape(self.layout, self.operator(op, [x, self.convert("embedding", x, u)]))
        if op == "riemannian_hessian":
            if op in self.given:
                return shape(self.layout, self.operator(op, [x, u]))
            eh = self.operator("euclidean_hessian", [x, self.convert("embedding", x, u)])
            return shape(self.layout, self.convert("euclidean_to_riemannian_hessian", x, self.operator("euclidean_gradient", [x]), eh, u))
        if op == "preconditioner":
            if self.prec:
                return mk("call", PREC, (to_term(shape(self.layout, x)), to_term(shape(self.layout, u))), ())
            return shape(self.layout, u)


def to_term(x):
    return mk("tuple", *[to_term(y) for y in x]) if isinstance(x, tuple) else x


def flat(x):
    if isinstance(x, tuple):
        return [t for y in x for t in flat(y)]
    if isinstance(x, Term) and x.op in ("tuple", "list"):
        return [t for y in x.args for t in flat(y)]
    return [x]


def deep_flat(t, memo=None):
    """The term with all sequences of arguments flattened."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = t
    if t.op == "mcall":
        r = mk("mcall", t.args[0], deep_flat(t.args[1], memo), tuple(deep_flat(z, memo) for a in t.args[2] for z in flat(a)), tuple((k, deep_flat(v, memo)) for k, v in t.args[3]))
    elif t.op == "call":
        r = mk("call", deep_flat(t.args[0], memo), tuple(deep_flat(z, memo) for a in t.args[1] for z in flat(a)), tuple((k, deep_flat(v, memo)) for k, v in t.args[2]))
    elif t.op == "select":
        r = mk("select", deep_flat(t.args[0], memo), t.args[1])
    memo[t] = r
    return r


KNOWN = {"sym", "call", "mcall", "select", "const", "attr", "tuple", "list", "star"}


def recognised(x):
    """Built from calls and components only: a comparison decides."""
    return all(s.op in KNOWN for t in flat(x) if t is not None for s in subterms(t)) and all(t is not None for t in flat(x))


def text(x):
    if isinstance(x, tuple):
        return "(" + ", ".join(text(y) for y in x) + ("," if len(x) == 1 else "") + ")"
    return show(x, 9) if x is not None else "?"


def cases(rep, program, layouts, combos=COMBINATIONS, lists=(False,), precs=(False, True)):
    cls = program.get("pymanopt.core.problem", "Problem")
    for layout in layouts:
        for as_list in lists:
            if as_list and isinstance(layout, int):
                continue
            for given in combos:
                for prec in precs:
                    if prec and given:
                        continue
                    hooks = ProblemHooks(program, layout, as_list)
                    it, st = fresh_interp(program, hooks)
                    kw = {g: Val(sym("user." + g)) for g in given}
                    if prec:
                        kw["preconditioner"] = Val(PREC)
                    lay = f"layout {list(layout) if as_list else layout}"
                    label = f"Problem[{lay}; {'given ' + ', '.join(given) if given else 'generated'}{', preconditioner' if prec else ''}]"
                    it.sinks.append([])
                    try:
                        ref = it.instantiate(cls, [Val(MANIFOLD), Val(COST)], kw, st, entry_node("init"))
                    except Dead:
                        ref = None
                    it.sinks.pop()
                    if ref is None:
                        rep.unk(f"construct@{label}", "construction raises")
                        continue
                    yield Case(label, it, st, ref, layout, given, prec, hooks)
