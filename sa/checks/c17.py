"""C17: invalid definitions are rejected."""
import itertools
import math
import os
from fractions import Fraction

from ..man import ManRun, CLASSES
from ..manobl import load
from ..problems import *
from .. import opt_common as oc
from . import c28
from ..values import Tup, Val, Ref, Ext

RULE = (
    "Constructors, decorators and the starts of run methods are executed abstractly.  For sizes the surviving path condition of the constructor "
    "is a formula over symbolic integers; it is compared with the documented domain on all cells of the order domain (every sign and relative "
    "order of the sizes).  For the remaining arguments each documented kind of invalid argument is an abstract value (not callable, no Function, "
    "no Manifold, unknown name, wrong number of points).  Obligation: no path returns for an invalid definition and none raises for a valid one."
)
FLOOR = 150

n, p, k, m = sym("n"), sym("p"), sym("k"), sym("m")
SIZES = ("n", "p", "k", "m")


class Sizes(c28.Facts):
    """Symbolic integers."""

    def isinstance_(self, t, c):
        short = c.split(".")[-1]
        if short in ("list", "tuple", "str", "Sequence"):
            return False
        if short in ("int", "integer", "Integral", "Number", "Real"):
            return True
        return c28.Facts.isinstance_(self, t, c)

    def kind(self, t):
        if t.op == "sym" and t.args[0] in SIZES:
            return "scalar"

    def decide(self, t):
        # guards without unknowns
        if t.op in ("lt", "le", "eq"):
            try:
                return bool(ev(t, {}))
            except NoValue:
                pass
        return None


class NoValue(Exception):
    pass


def ev(t, env):
    """Value of a guard at a cell of the order domain."""
    op = t.op
    if op == "const":
        return t.args[0]
    if op == "sym":
        if t.args[0] in env:
            return env[t.args[0]]
        raise NoValue(show(t))
    if op == "raises":
        return False
    if op in ("and", "or"):
        # three-valued
        unknown = None
        for a in t.args:
            try:
                v = ev(a, env)
            except NoValue as e:
                unknown = e
                continue
            if bool(v) == (op == "or"):
                return op == "or"
        if unknown:
            raise unknown
        return op == "and"
    if op == "ite":
        return ev(t.args[1] if ev(t.args[0], env) else t.args[2], env)
    if op == "not":
        return not ev(t.args[0], env)
    if op == "truthy":
        return bool(ev(t.args[0], env))
    if op in ("lt", "le", "eq", "add", "mul", "div", "pow", "floordiv", "mod", "sub"):
        a, b = ev(t.args[0], env), ev(t.args[1], env)
        try:
            return {"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b, "add": lambda: a + b, "mul": lambda: a * b,
                    "div": lambda: Fraction(a) / Fraction(b), "pow": lambda: Fraction(a) ** b, "floordiv": lambda: a // b, "mod": lambda: a % b, "sub": lambda: a - b}[op]()
        except (ZeroDivisionError, TypeError, OverflowError):
            raise NoValue(show(t))
    if op == "neg":
        return -ev(t.args[0], env)
    if op in ("tuple", "list"):
        return [ev(a, env) for a in t.args]
    if op == "npcall" and t.args[0] in ("min2", "max2", "minimum", "maximum") and len(t.args[1]) == 2:
        return (min if "min" in t.args[0] else max)(*[ev(a, env) for a in t.args[1]])
    if op == "npcall" and t.args[0] == "linalg.matrix_rank":
        return 2
    if op == "npcall" and t.args[0] in ("scipy.special.comb", "special.comb", "comb", "math.comb"):
        return ev(mk("ext", "math.comb", t.args[1][:2], ()), env)
    if op == "npcall" and not t.args[2]:
        a = [ev(x, env) for x in t.args[1]]
        f = t.args[0]
        if f == "int":
            return int(a[0])
        if f in ("prod", "product") and isinstance(a[0], list):
            return math.prod(a[0])
        if f in ("sum", "min", "max", "any", "all") and isinstance(a[0], list):
            return {"sum": sum, "min": min, "max": max, "any": any, "all": all}[f](a[0])
        if f in ("minimum", "maximum", "min", "max") and len(a) == 2:
            return (min if "min" in f else max)(a)
        if f in ("float", "abs"):
            return abs(a[0]) if f == "abs" else a[0]
    if op in ("min", "max", "min2", "max2"):
        return (min if op[:3] == "min" else max)(*[ev(a, env) for a in t.args])
    if op == "call" and t.args[0].op == "extname":
        return ev(mk("ext", t.args[0].args[0], t.args[1], t.args[2]), env)
    if op == "ext":
        a = [ev(x, env) for x in t.args[1]]
        if t.args[0] in ("scipy.special.comb", "math.comb", "comb") and len(a) == 2:
            return math.comb(int(a[0]), int(a[1])) if a[0] >= 0 else 0
        if t.args[0] == "math.prod" and isinstance(a[0], list):
            return math.prod(a[0])
        if t.args[0] == "callable":
            raise NoValue(show(t))
        if t.args[0] in ("min", "max"):
            return (min if t.args[0] == "min" else max)(*a)
    raise NoValue(show(t))


# class, positional sizes, keyword sizes, valid, invalid (must raise), other arguments
def D():
    pos = lambda *a: (lambda e: all(e[x] >= 1 for x in a))
    stiefel = lambda e: e["n"] >= e["p"] >= 1 and e["k"] >= 1
    fixed = lambda e: 1 <= e["k"] <= min(e["m"], e["n"])
    nk = lambda e: e["n"] >= 1 and e["k"] >= 1
    no = lambda f: (lambda e: not f(e))
    neg = lambda *a: (lambda e: sum(e[x] < 0 for x in a) == 1 and all(e[x] != 0 for x in a))
    badk = lambda e: e["k"] < 1
    yield "Euclidean", (n,), (), pos("n"), neg("n")
    yield "Euclidean", (n, m), (), pos("n", "m"), neg("n", "m")
    yield "Euclidean", (n, m, p), (), pos("n", "m", "p"), neg("n", "m", "p")
    yield "ComplexEuclidean", (n,), (), pos("n"), neg("n")
    yield "ComplexEuclidean", (n, m), (), pos("n", "m"), neg("n", "m")
    yield "ComplexEuclidean", (n, m, p), (), pos("n", "m", "p"), neg("n", "m", "p")
    yield "Sphere", (n,), (), pos("n"), lambda e: e["n"] < 1
    yield "Sphere", (n, m), (), pos("n", "m"), neg("n", "m")
    yield "Sphere", (n, m, p), (), pos("n", "m", "p"), neg("n", "m", "p")
    for c in ("Symmetric", "SkewSymmetric"):
        yield c, (n, k), (), nk, badk
        yield c, (n,), (), pos("n"), lambda e: False
    for c in ("Stiefel", "Grassmann", "ComplexGrassmann"):
        yield c, (n, p), ("k",), stiefel, no(stiefel)
        yield c, (n, p), (), lambda e: e["n"] >= e["p"] >= 1, lambda e: not e["n"] >= e["p"] >= 1
    for c in ("SpecialOrthogonalGroup", "UnitaryGroup"):
        yield c, (n,), ("k",), nk, badk
        yield c, (n,), (), pos("n"), lambda e: False
    for c in ("PSDFixedRank", "PSDFixedRankComplex", "Elliptope"):
        yield c, (n, k), (), lambda e: 1 <= e["k"] <= e["n"], lambda e: False
    for c in ("SymmetricPositiveDefinite", "HermitianPositiveDefinite", "SpecialHermitianPositiveDefinite"):
        yield c, (n,), ("k",), nk, lambda e: False
    yield "FixedRankEmbedded", (m, n, k), (), fixed, no(fixed)
    yield "ComplexCircle", (n,), (), pos("n"), neg("n")
    yield "Positive", (m, n), ("k",), pos("m", "n", "k"), neg("m", "n", "k")
    yield "PoincareBall", (n,), ("k",), nk, no(nk)
    yield "Oblique", (m, n), (), pos("m", "n"), lambda e: e["n"] < 0 and e["m"] > 1


def sizes(rep, program, tier):
    span = range(-2, 5) if tier == "quick" else range(-3, 8)
    for cls, args, kws, valid, invalid in D():
        names_ = [a.args[0] for a in args] + list(kws)
        label = f"{cls}({', '.join([a.args[0] for a in args] + [x + '=' + x for x in kws])})"
        loc = f"pymanopt.manifolds.{CLASSES[cls]}:{cls}.__init__"
        r = ManRun(program, cls, [Val(a) for a in args], {x: Val(sym(x)) for x in kws}, Sizes())
        rep.count("constructors executed on symbolic sizes")
        if r.ref is None:
            rep.bad(f"valid sizes@{label}", "the constructor always raises", loc)
            continue
        guard = And(*[c if pol else Not(c) for c, pol in r.init_pc])
        good = bad = None
        unknown = None
        cells = 0
        for vals in itertools.product(span, repeat=len(names_)):
            e = dict(zip(names_, vals))
            if not valid(e) and not invalid(e):
                continue
            cells += 1
            try:
                v = bool(ev(guard, e))
            except NoValue as ex:
                unknown = unknown or str(ex)
                continue
            if valid(e) and not v:
                good = good or e
            if invalid(e) and v:
                bad = bad or e
        rep.count("cells of the order domain", cells)
        if good:
            rep.bad(f"valid sizes@{label}", f"rejects {good}; accepted when {show(guard, 9)[:300]}", loc)
        elif unknown:
            rep.unk(f"valid sizes@{label}", f"guard not evaluated: {unknown}"[:300], loc)
        else:
            rep.ok(f"valid sizes@{label}", f"accepted when {show(guard, 9)[:300]}", loc)
        if bad:
            rep.bad(f"invalid sizes@{label}", f"accepts {bad}; accepted when {show(guard, 9)[:300]}", loc)
        elif unknown:
            rep.unk(f"invalid sizes@{label}", f"guard not evaluated: {unknown}"[:300], loc)
        else:
            rep.ok(f"invalid sizes@{label}", f"accepted when {show(guard, 9)[:300]}", loc)


def rejects(rep, key, made, raised, loc, what):
    """made: did some path return?"""
    if not made:
        rep.ok(key, f"{what} raises {', '.join(sorted(raised))}", loc)
    elif raised:
        rep.unk(key, f"{what} is accepted on some path and raises {', '.join(sorted(raised))} on another", loc)
    else:
        rep.bad(key, f"{what} is accepted", loc)


def accepts(rep, key, made, raised, loc, what):
    if made and not raised:
        rep.ok(key, f"{what} is accepted", loc)
    elif not made:
        rep.bad(key, f"{what} raises {', '.join(sorted(raised))}", loc)
    else:
        rep.unk(key, f"{what} raises {', '.join(sorted(raised))} on some path", loc)


def literal(rep, program):
    """Arguments that are no sizes."""
    def run(cls, args, kw, want, what, model=None):
        loc = f"pymanopt.manifolds.{CLASSES[cls]}:{cls}.__init__"
        r = ManRun(program, cls, args, kw, model or Sizes())
        rep.count("constructors executed on documented kinds of arguments")
        # a failing lookup of an attribute that exists is no path
        raised = {s[0] for s in r.init_sinks if not any(c.op == "raises" and pol for c, pol in s[1].pc)}
        (accepts if want else rejects)(rep, f"{'valid' if want else 'invalid'} arguments@{cls}: {what}", r.ref is not None, raised, loc, what)

    for cls in ("Euclidean", "ComplexEuclidean", "Sphere"):
        run(cls, [], {}, False, "no shape")
    for cls, size, ok in (("Stiefel", [Val(const(3)), Val(const(2))], ("qr", "polar")), ("SpecialOrthogonalGroup", [Val(const(3))], ("qr", "polar")), ("UnitaryGroup", [Val(const(3))], ("qr", "polar"))):
        for q in ok:
            run(cls, list(size), {"retraction": Val(const(q))}, True, f"retraction {q!r}")
        for q in ("cayley", "", "QR"):
            run(cls, list(size), {"retraction": Val(const(q))}, False, f"retraction {q!r}")
    for cls in ("SphereSubspaceIntersection", "SphereSubspaceComplementIntersection"):
        for shape_, ok in (((4, 2), True), ((3,), False), ((2, 3, 4), False), ((2, 3), False)):
            run(cls, [Val(sym("U"))], {}, ok, f"matrix of shape {shape_}", Shaped(shape_))
    for m_ in (1, 2, 3):
        for bad in range(m_):
            Ms = [Val(sym("M%d" % i)) for i in range(m_)]
            run("Product", [Tup(Ms)], {}, False, f"factor {bad} of {m_} is a product", Nested(bad))
        run("Product", [Tup([Val(sym("M%d" % i)) for i in range(m_)])], {}, True, f"{m_} factors", Nested(None))


class Shaped(Sizes):
    def __init__(self, shape):
        Sizes.__init__(self)
        self.shape = shape

    def attr(self, t, name):
        if t.op == "sym" and t.args[0] == "U":
            if name == "shape":
                return tuple(const(i) for i in self.shape)
            if name == "ndim":
                return const(len(self.shape))
        elif name == "shape":
            # projectors onto subspaces of the space of the rows
            return (const(self.shape[0]),) * 2
        return None

    def kind(self, t):
        return "array" if t.op == "sym" and t.args[0] == "U" else None


class Nested(Sizes):
    def __init__(self, which):
        Sizes.__init__(self)
        self.which = which

    def isinstance_(self, t, c):
        if c.split(".")[-1] == "Product":
            return t.op == "sym" and t.args[0] == f"M{self.which}"
        if t.op == "attr" and t.args[1] == "point_layout":
            return c.split(".")[-1] == "int"
        return Sizes.isinstance_(self, t, c)

    def attr(self, t, name):
        if name == "point_layout":
            return const(1)
        if name == "dim":
            return const(2)


# -- the base class ------------------------------------------------------------
class BaseHooks(OptHooks):
    def __init__(self, program, kinds):
        OptHooks.__init__(self, program)
        self.kinds = kinds

    def isinstance_(self, t, c):
        short = c.split(".")[-1]
        if t.op == "sym" and t.args[0] in self.kinds:
            return short in self.kinds[t.args[0]]
        return None

    def kind(self, t):
        if t.op == "sym" and t.args[0] in self.kinds:
            return "scalar"


def construct(program, cls, args, kw, hooks):
    it, st = fresh_interp(program, hooks)
    it.sinks.append([])
    try:
        ref = it.instantiate(cls, args, kw, st, entry_node("c17"))
    except Dead:
        ref = None
    return it, st, ref, {s[0] for s in it.sinks.pop()}


def base(rep, program):
    # a concrete subclass: the layout and the dimension are handed on unchanged
    cls = program.get("pymanopt.manifolds.manifold", "Manifold")
    cls = concrete(cls)
    loc = "pymanopt.manifolds.manifold:Manifold.__init__"
    d = Val(sym("d"))
    for want, dim, lay, what in (
        (True, 0, 1, "dimension 0"), (True, 3, 1, "dimension 3"), (True, 3, 3, "layout 3"), (True, 3, (1, 2), "layout (1, 2)"), (True, 3, [2, 1], "layout [2, 1]"),
        (False, -1, 1, "dimension -1"), (False, -7, (1, 2), "dimension -7"), (False, 2.5, 1, "dimension 2.5"), (False, "3", 1, "dimension '3'"), (False, None, 1, "dimension None"),
        (False, 3, 0, "layout 0"), (False, 3, -1, "layout -1"), (False, 3, (1, 0), "layout (1, 0)"), (False, 3, (-1, 2), "layout (-1, 2)"), (False, 3, (0, 1, 1), "layout (0, 1, 1)"),
        (False, 3, [2, 0], "layout [2, 0]"), (False, 3, 1.0, "layout 1.0"), (False, 3, "1", "layout '1'"), (False, 3, None, "layout None"),
    ):
        hooks = OptHooks(program)
        it, st = fresh_interp(program, hooks)
        L = Val(const(lay)) if not isinstance(lay, (tuple, list)) else Tup([Val(const(x)) for x in lay]) if isinstance(lay, tuple) else it.alloc(st, ListObj([Val(const(x)) for x in lay]))
        it.sinks.append([])
        try:
            ref = it.instantiate(cls, [Val(const("name")), Val(const(dim))], {"point_layout": L}, st, entry_node("c17"))
        except Dead:
            ref = None
        raised = {s[0] for s in it.sinks.pop()}
        rep.count("constructors executed on documented kinds of arguments")
        (accepts if want else rejects)(rep, f"{'valid' if want else 'invalid'} arguments@Manifold: {what}", ref is not None, raised, loc, what)


def concrete(cls):
    from ..values import Cls
    return Cls("Concrete", "Concrete", [cls], {}, cls.module)


# -- problems --------------------------------------------------------------------
def problems(rep, program):
    cls = program.get("pymanopt.core.problem", "Problem")
    loc = "pymanopt.core.problem:Problem.__init__"

    def make(layout, given, undecorated=None, none=()):
        hooks = ProblemHooks(program, layout, False)
        real = hooks.isinstance_

        def isinst(t, c):
            if c.split(".")[-1] == "Function" and t.op == "sym" and t.args[0] == f"user.{undecorated}":
                return False
            return real(t, c)

        hooks.isinstance_ = isinst
        kw = {g: Val(sym("user." + g)) for g in given}
        for g in none:
            kw[g] = Val(NONE)
        it, st, ref, raised = construct(program, cls, [Val(MANIFOLD), Val(COST)], kw, hooks)
        rep.count("problems constructed")
        return it, st, ref, raised

    for layout in (1, 3, (1, 2)):
        for r in range(5):
            for given in itertools.combinations(GIVEN, r):
                twice = {"euclidean_gradient", "riemannian_gradient"} <= set(given) or {"euclidean_hessian", "riemannian_hessian"} <= set(given)
                it, st, ref, raised = make(layout, given)
                what = f"layout {layout}, given {', '.join(given) or 'nothing'}"
                (rejects if twice else accepts)(rep, f"{'contradictory' if twice else 'consistent'} derivatives@Problem: {what}", ref is not None, raised, loc, what)
                if twice:
                    continue
                for u in ("cost",) + given:
                    it, st, ref, raised = make(layout, given, u)
                    rejects(rep, f"undecorated function@Problem: {u} ({what})", ref is not None, raised, loc, f"an undecorated {u}")
    # fixed parts
    it, st, ref, raised = make(1, ())
    if ref is not None:
        for name in ("manifold", "preconditioner"):
            s = st.copy()
            it.sinks.append([])
            try:
                it.setattr(ref, name, Val(sym("other")), s, entry_node("set"))
                made = True
            except Dead:
                made = False
            except Exception as e:
                rep.unk(f"fixed attribute@Problem.{name}", repr(e))
                it.sinks.pop()
                continue
            r = {q[0] for q in it.sinks.pop()}
            rejects(rep, f"fixed attribute@Problem.{name}", made, r, "pymanopt.core.problem:Problem.__setattr__", f"overriding {name}")


# -- functions and decorators --------------------------------------------------------
class DecoratorHooks(OptHooks):
    def __init__(self, program, is_manifold=True, callable_=True, available=True, spec=None):
        OptHooks.__init__(self, program)
        self.isman, self.callable_, self.available, self.spec = is_manifold, callable_, available, spec

    def isinstance_(self, t, c):
        if c.split(".")[-1] == "Manifold":
            return self.isman
        return None

    def decide(self, t):
        if contains(t, lambda s: s.op == "ext" and s.args[0] == "callable"):
            q = t
            neg = False
            while q.op in ("not", "truthy"):
                neg ^= q.op == "not"
                q = q.args[0]
            if q.op == "ext":
                return self.callable_ ^ neg
        q, neg = t, False
        while q.op in ("not", "truthy"):
            neg ^= q.op == "not"
            q = q.args[0]
        if q.op == "mcall" and q.args[0] == "is_available":
            return self.available ^ neg
        return OptHooks.decide(self, t)

    def attr(self, it, st, base, name):
        if self.spec and base.term.op == "ext" and base.term.args[0] == "inspect.getfullargspec":
            v = dict(zip(("args", "varargs", "varkw", "defaults", "kwonlyargs", "kwonlydefaults", "annotations"), self.spec)).get(name)
            if isinstance(v, (list, tuple)):
                return it.alloc(st, ListObj([Val(const(x)) for x in v]))
            return Val(const(v))
        return None


def functions(rep, program):
    cls = program.get("pymanopt.autodiff", "Function")
    loc = "pymanopt.autodiff:Function.__init__"
    for call, avail in itertools.product((True, False), repeat=2):
        hooks = DecoratorHooks(program, callable_=call, available=avail)
        it, st, ref, raised = construct(program, cls, [], {"function": Val(sym("user.f")), "manifold": Val(sym("manifold")), "backend": Val(sym("backend"))}, hooks)
        what = f"{'a callable' if call else 'no callable'} with {'an available' if avail else 'an unavailable'} backend"
        (accepts if call and avail else rejects)(rep, f"{'valid' if call and avail else 'invalid'} function@Function: {what}", ref is not None, raised, loc, what)
        rep.count("functions decorated")
    factory = program.get("pymanopt.autodiff", "backend_decorator_factory")
    loc = "pymanopt.autodiff:backend_decorator_factory"
    specs = [
        (True, True, (("x",), None, None, None, (), None, None), "f(x)"),
        (True, True, (("x", "y", "z"), None, None, None, (), None, None), "f(x, y, z)"),
        (True, True, ((), "xs", None, None, (), None, None), "f(*xs)"),
        (False, True, ((), None, None, None, (), None, None), "f()"),
        (False, True, (("x",), "xs", None, None, (), None, None), "f(x, *xs)"),
        (False, True, (("x",), None, "kw", None, (), None, None), "f(x, **kw)"),
        (False, True, (("x",), None, None, None, ("a",), None, None), "f(x, *, a)"),
        (False, True, ((), "xs", None, None, ("a",), None, None), "f(*xs, a)"),
        (False, True, ((), "xs", "kw", None, (), None, None), "f(*xs, **kw)"),
        (False, True, ((), None, "kw", None, (), None, None), "f(**kw)"),
        (False, True, ((), None, None, None, ("a",), None, None), "f(*, a)"),
        (False, False, (("x",), None, None, None, (), None, None), "decorator without a manifold"),
    ]
    for want, man, spec, what in specs:
        hooks = DecoratorHooks(program, is_manifold=man, spec=spec)
        it, st = fresh_interp(program, hooks)
        it.sinks.append([])
        v = None
        try:
            d = it.call(factory, [Val(sym("backend_cls"))], {}, st, entry_node("fac"))
            i = it.call(d, [Val(sym("manifold"))], {}, st, entry_node("dec"))
            v = it.call(i, [Val(sym("user.f"))], {}, st, entry_node("inner"))
        except Dead:
            pass
        raised = {s[0] for s in it.sinks.pop()}
        rep.count("functions decorated")
        (accepts if want else rejects)(rep, f"{'valid' if want else 'invalid'} signature@backend decorator: {what}", v is not None, raised, loc, what)


# -- optimizers -------------------------------------------------------------------
def optimizers(rep, program):
    for b in BETAS + ["NoSuchRule", "hestenesstiefel", ""]:
        hooks = OptHooks(program)
        it, st = fresh_interp(program, hooks)
        it.sinks.append([])
        try:
            instantiate(it, st, program, "ConjugateGradient", {"beta_rule": b})
            made = True
        except Dead:
            made = False
        raised = {s[0] for s in it.sinks.pop()}
        ok = b in BETAS
        rep.count("optimizers constructed")
        (accepts if ok else rejects)(rep, f"{'known' if ok else 'unknown'} rule@ConjugateGradient: {b!r}", made, raised, "pymanopt.optimizers.conjugate_gradient:ConjugateGradient.__init__", f"rule {b!r}")
    for o in ("NelderMead", "ParticleSwarm"):
        loc = f"{OPTS[o]}:{o}.run"
        for what, count in (("a single array", None), ("a string", "abc")) + (tuple((f"{c} points on a manifold of dimension 2", c) for c in (0, 1, 2, 3, 4, 6)) if o == "NelderMead" else (("2 points", 2), ("5 points", 5))):
            ok = count == 3 if o == "NelderMead" else isinstance(count, int)
            hooks = PopulationHooks(program)
            hooks.opaque_funcs["compute_centroid"] = lambda it, f, args: Val(it.fresh("centroid", f.node))
            hooks.assume[Isnone(sym("initial_point"))] = False
            p0 = Val(sym("initial_point")) if count is None else Val(const(count)) if isinstance(count, str) else Tup([Val(sym(f"initial{i}")) for i in range(count)])
            R = run_optimizer(program, o, {}, {"initial_point": p0}, o, None, hooks)
            evals = [e for e in R.events if e.kind == "call" and e.data["callee"].op == "attr" and e.data["callee"].args[1] == "cost"]
            rep.count("runs started")
            key = f"{'valid' if ok else 'malformed'} initial {'simplex' if o == 'NelderMead' else 'population'}@{o}: {what}"
            if ok:
                accepts(rep, key, bool(evals), {s[0] for s in R.raises} & {"ValueError", "TypeError"} if not evals else set(), loc, what)
            elif R.value is None and not evals:
                rep.ok(key, "raises " + ", ".join(sorted({s[0] for s in R.raises})), loc)
            elif evals:
                rep.bad(key, f"{what} is accepted: the cost is evaluated at {evals[0].loc}", loc)
            else:
                rep.unk(key, f"{what}: no evaluation of the cost found", loc)


class PopulationHooks(OptHooks):
    def isinstance_(self, t, c):
        if t is sym("initial_point"):
            return c.split(".")[-1] == "ndarray"
        return OptHooks.isinstance_(self, t, c)

    def attr(self, it, st, base, name):
        if base.term is MANIFOLD and name == "dim":
            return Val(const(2))
        return None


def part(rep, name, f, *args):
    try:
        f(rep, *args)
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        rep.unk(f"analysis@{name}", "analysis failed: %r" % e)


def run(rep, tier):
    mp = load(oc.ROOT)
    pr = oc.program(oc.ROOT)
    part(rep, "sizes", sizes, mp, tier)
    part(rep, "manifold arguments", literal, mp)
    part(rep, "Manifold", base, mp)
    part(rep, "Problem", problems, pr)
    part(rep, "functions", functions, pr)
    part(rep, "optimizers", optimizers, pr)
