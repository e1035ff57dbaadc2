"""C16: structured points reach the user's functions flattened."""
from ..problems import *
from .. import opt_common as oc
from ..man import ManRun
from ..manobl import load, all_spaces
from . import c15, c28

RULE = (
    "Problem objects are executed abstractly on literal points of every nesting of array, tuple and product layouts (layouts and points as "
    "tuples and as lists) for every combination of given derivatives.  Obligation: user functions and generated operators are called with the "
    "components in order and the result has the structure of the point with each component in its place; operators that return another number "
    "of values are refused; products report the layouts of their factors in order and the total number of values."
)
FLOOR = 3000


def run(rep, tier):
    layouts = QUICK if tier == "quick" else LAYOUTS
    c15.run(rep, tier, view=lambda x: x, layouts=layouts, lists=(False, True), points=(False, True), what="structure", shapes=True)
    program = load(oc.ROOT)
    products(rep, program, 3 if tier == "quick" else 4)
    manifolds(rep, program)


class LayoutFacts(c28.Facts):
    def __init__(self, layouts):
        c28.Facts.__init__(self)
        self.layouts = layouts

    def attr(self, t, name):
        if name == "point_layout" and t.op == "sym" and t.args[0].startswith("M"):
            return const(self.layouts[int(t.args[0][1:])])
        return None


def check_layout(rep, key, r, want, loc):
    for name, w in (("point_layout", want), ("num_values", want if isinstance(want, int) else sum(want))):
        try:
            v, st = r.get(name)
            got = result(r.it, st, v)
        except Dead:
            rep.bad(f"{name}@{key}", "raises", loc + name)
            continue
        e = tuple(const(g) for g in w) if isinstance(w, tuple) else const(w)
        if got == e:
            rep.ok(f"{name}@{key}", f"is {w}", loc + name)
        elif all(t is not None and t.op == "const" for t in flat(got)):
            rep.bad(f"{name}@{key}", f"is {text(got)}, expected {w}", loc + name)
        else:
            rep.unk(f"{name}@{key}", f"not recognised: {text(got)[:200]}", loc + name)


def products(rep, program, upto):
    import itertools
    for m in range(1, upto + 1):
        for layouts in itertools.product((1, 3, 2)[: 3 if m < 3 else 2], repeat=m):
            r = ManRun(program, "Product", [Tup([Val(sym("M%d" % i)) for i in range(m)])], {}, LayoutFacts(layouts))
            key = f"Product of factors with layouts {layouts}"
            if r.ref is None:
                rep.bad(f"construct@{key}", "raises", "pymanopt.manifolds.product:Product.__init__")
                continue
            check_layout(rep, key, r, layouts, "pymanopt.manifolds.product:Product.")


def manifolds(rep, program):
    r = ManRun(program, "FixedRankEmbedded", [sym("m"), sym("n"), sym("k")], {}, c28.Facts())
    if r.ref is not None:
        check_layout(rep, "FixedRankEmbedded", r, 3, "pymanopt.manifolds.fixed_rank:FixedRankEmbedded.")
    for o in all_spaces(rep, program):
        check_layout(rep, o.s.label(), o.r, 1, o.s.cls + ".")
