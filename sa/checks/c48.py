"""C48: the testing helpers derive reference conversions from the projector."""
from ..opt_common import *
from ..opt import OptHooks, fresh_interp, entry_node
from ..interp import Dead, StarVal
from .. import opt_common as oc

RULE = (
    "The helpers of pymanopt.tools.testing are executed abstractly for an opaque cost and an opaque projector (linear in its second argument), the "
    "derivative operators of the differentiation library kept as symbols.  Obligations: riemannian_gradient is P(x, grad f(x)); the converted "
    "gradient is P(x, g); the converted Hessian is P(x, h + D P(x, g)[v]) with the derivative of the projector taken by the point and contracted with "
    "the direction over all of its axes; the same functions give the same conversions when they are called again at other arguments."
)
FLOOR = 10
MOD = "pymanopt.tools.testing"
COSTF, PROJ = sym("user.cost"), sym("user.projector")
X, G, H, V = (sym(n) for n in ("x", "g", "h", "v"))
OPERATORS = {"grad", "jacobian", "elementwise_grad", "egrad", "value_and_grad"}


class THooks(OptHooks):
    def __init__(self, program):
        OptHooks.__init__(self, program)
        self.arrays = set()
        for t in (COSTF, PROJ):
            self.assume[Isnone(t)] = False
            self.assume[Truthy(mk("callable", t))] = True

    def kind(self, t):
        return "array" if t in self.arrays or t.op == "contract" else OptHooks.kind(self, t)

    def ext_call(self, it, st, name, args, kwargs, node):
        p = name.split(".")
        if p[0] in ("autograd", "jax") and p[1] != "numpy" and p[-1] in OPERATORS and args and not isinstance(args[0], StarVal):
            ts = [it.term(a, st) for a in args]
            kw = {k: it.term(v, st) for k, v in kwargs.items()}
            n = ts[1] if len(ts) > 1 else kw.pop("argnum", kw.pop("argnums", ZERO))
            if kw or len(ts) > 2:
                return None
            return Val(mk("operator", p[-1], ts[0], n))
        return None


def rank_of(t):
    """The array whose number of axes t is."""
    if t.op in ("attr", "ndim") and (t.op == "ndim" or t.args[1] == "ndim"):
        return t.args[0]
    if t.op == "npcall" and t.args[0] == "ndim":
        return t.args[1][0]
    if t.op == "len" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
        return t.args[0].args[0]
    return None


RANKS = (1, 2, 3, 4, 5)


def count(t, arrays, r):
    """The number t denotes where every array has r axes, or None."""
    if rank_of(t) in arrays:
        return r
    if t.op == "const":
        return t.args[0] if isinstance(t.args[0], (int, bool)) else None
    if t.op == "ite":
        c = count(t.args[0], arrays, r)
        return None if c is None else count(t.args[1 if c else 2], arrays, r)
    args = list(t.args[1]) if t.op == "npcall" else list(t.args)
    name = t.args[0] if t.op == "npcall" else t.op
    if name == "cmp":
        name, args = args[0], args[1:]
    if name not in NUMERIC or any(not isinstance(a, Term) for a in args):
        return None
    vs = [count(a, arrays, r) for a in args]
    if None in vs:
        return None
    try:
        return NUMERIC[name](*vs)
    except (TypeError, ZeroDivisionError):
        return None


def product(*a):
    r = 1
    for x in a:
        r *= x
    return r


NUMERIC = {
    "add": lambda *a: sum(a), "mul": product, "neg": lambda a: -a, "sub": lambda a, b: a - b, "min": min, "max": max, "minimum": min, "maximum": max, "min2": min, "max2": max,
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b, "eq": lambda a, b: a == b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "ne": lambda a, b: a != b,
    "not": lambda a: not a, "and": lambda *a: all(a), "or": lambda *a: any(a), "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
}


class Reader:
    def __init__(self, x, g, h, v):
        self.x, self.g, self.h, self.v = x, g, h, v
        self.notes = []
        self.alg = Alg(is_vec=lambda t: t in (x, g, h, v) or t.op in ("contract", "call"))

    def norm(self, t, memo=None):
        """Contractions and projections in a standard form."""
        memo = {} if memo is None else memo

        def sub(a):
            if isinstance(a, Term):
                return go(a)
            if isinstance(a, tuple):
                return tuple(sub(y) for y in a)
            return a

        def go(t):
            if t in memo:
                return memo[t]
            r = t
            if t.args and t.op not in ("const", "sym"):
                r = rebuild(t.op, *[sub(a) for a in t.args])
            if r.op == "npcall" and r.args[0] == "tensordot":
                r = self.contraction(r)
            memo[t] = r
            return r
        return go(t)

    def contraction(self, t):
        a, kw = t.args[1], dict(t.args[2])
        ax = a[2] if len(a) > 2 else kw.get("axes", const(2))
        arrays = (self.x, self.g, self.h, self.v)
        if len(a) < 2:
            return t
        who = rank_of(ax)
        if who is not None and who in arrays:
            return mk("contract", a[0], a[1], TRUE)
        if ax.op == "const" and isinstance(ax.args[0], int):
            return mk("contract", a[0], a[1], ax)
        counts = [count(ax, arrays, r) for r in RANKS]
        if counts == list(RANKS):
            return mk("contract", a[0], a[1], TRUE)
        if None not in counts:
            return mk("contract", a[0], a[1], mk("counts", tuple(counts)))
        return t

    def linear(self, t):
        """P(x, a) + P(x, b) as P(x, a + b): the argument of P, or None."""
        if t.op == "call" and t.args[0] is PROJ and len(t.args[1]) == 2 and not t.args[2] and t.args[1][0] is self.x:
            return t.args[1][1]
        if t.op == "add":
            parts = [self.linear(a) for a in t.args]
            if all(p is not None for p in parts):
                r = parts[0]
                for p in parts[1:]:
                    r = Arith("add", r, p)
                return r
        return None


PLAIN = {"const", "sym", "call", "operator", "add", "mul", "neg", "contract", "num", "poly", "div"}


def apply(f, *a):
    return mk("call", f, tuple(a), ())


def run(rep, tier):
    program = oc.program(oc.ROOT)
    cases = {
        "riemannian_gradient": ([COSTF, PROJ], "x"),
        "euclidean_to_riemannian_gradient": ([PROJ], "xg"),
        "euclidean_to_riemannian_hessian": ([PROJ], "xghv"),
    }
    for name, (made, sig) in cases.items():
        loc = f"{MOD}:{name}"
        f = program.namespace(MOD).get(name)
        rep.count("helpers")
        if f is None:
            rep.unk(f"found@{name}", "function not found", MOD)
            continue
        hooks = THooks(program)
        it, st = fresh_interp(program, hooks)
        it.sinks.append([])
        try:
            op = it.call(f, [Val(a) for a in made], {}, st, entry_node("make:" + name))
        except Dead:
            rep.bad(f"made@{name}", "no function is returned", loc)
            continue
        rep.ok(f"made@{name}", "a function is returned", loc)
        for n in (1, 2):
            arrays = {c: sym(c if n == 1 else c + str(n)) for c in "xghv"}
            hooks.arrays = set(arrays.values())
            key = f"call {n}@{name}"
            try:
                v = it.call(op, [Val(arrays[c]) for c in sig], {}, st, entry_node(f"call{n}:" + name))
                t = it.term(v, st)
            except Dead:
                rep.bad(f"value {key}", "raises", loc)
                continue
            judge(rep, name, key, loc, t, arrays)


def judge(rep, name, key, loc, t, arrays):
    R = Reader(*[arrays[c] for c in "xghv"])
    x, g, h, v = (arrays[c] for c in "xghv")
    if name == "riemannian_gradient":
        want = apply(mk("operator", "grad", COSTF, ZERO), x)
    elif name == "euclidean_to_riemannian_gradient":
        want = g
    else:
        want = Arith("add", h, mk("contract", apply(mk("operator", "jacobian", PROJ, ZERO), x, g), v, TRUE))
    t = R.norm(t)
    known = all(s.op in PLAIN for s in subterms(t))
    arg = R.linear(t)
    if arg is None:
        inside = t.op == "call" and t.args[0] is PROJ
        rep.verdict(f"projected {key}", False if known else None, f"the result {show(t, 6)[:200]} is not " + ("the projection at the point" if inside else "a projection"), loc)
        return
    rep.ok(f"projected {key}", "a projection at the point", loc)
    for s in subterms(arg):
        if s.op == "contract" and s.args[2] is not TRUE:
            if s.args[2].op == "counts":
                n, m = next((r, c) for r, c in zip(RANKS, s.args[2].args[0]) if r != c)
                rep.bad(f"contraction {key}", f"the derivative is contracted over {m} axes where the direction has {n}", loc)
            else:
                rep.bad(f"contraction {key}", f"the derivative is contracted over {s.args[2].args[0]} axes whatever the shape of the direction", loc)
            return
    if name.endswith("hessian"):
        rep.verdict(f"contraction {key}", True if any(s.op == "contract" for s in subterms(arg)) else None, "over all axes of the direction", loc)
    eq, w = R.alg.equal(arg, want)
    if eq is True:
        rep.ok(f"value {key}", f"P(x, {show(want, 8)})", loc)
    elif eq is False and known:
        rep.bad(f"value {key}", f"projected is {show(arg, 8)[:250]}, expected {show(want, 8)[:250]}", loc)
    else:
        rep.unk(f"value {key}", f"not recognised: {show(arg, 8)[:250]}", loc)
