"""C31: unsupported operations are refused explicitly."""
import ast

from ..manobl import *
from ..man import ManRun, ManHooks, CLASSES, MOD
from ..interp import Dead
from ..values import *
from .. import opt_common as oc
from . import c28
from .c14 import Names

RULE = (
    "Every operation of the manifold interface is executed abstractly on every manifold configuration on symbolic points and vectors.  "
    "Obligations: the operations documented for the manifold return a value (not None) on every path, the others raise "
    "NotImplementedError on every path; a product refuses exactly what one of its factors refuses; operations of the base classes are abstract, "
    "refuse, or have the documented default; an exponential map that is the retraction warns."
)
FLOOR = 700

OPS = {
    "dist": 2, "inner_product": 3, "norm": 2, "projection": 2, "to_tangent_space": 2, "embedding": 2, "retraction": 2, "exp": 2, "log": 2,
    "transport": 3, "pair_mean": 2, "random_point": 0, "random_tangent_vector": 1, "zero_vector": 1, "euclidean_to_riemannian_gradient": 2,
    "euclidean_to_riemannian_hessian": 4,
}
ARGS = {"dist": (X, Y), "log": (X, Y), "pair_mean": (X, Y), "inner_product": (X, U, V), "transport": (X, Y, U)}

# operations without implementation, by class
MISSING = {
    "Stiefel": {"dist", "log", "pair_mean"},
    "Grassmann": {"pair_mean"}, "ComplexGrassmann": {"pair_mean"},
    "SymmetricPositiveDefinite": {"pair_mean"}, "HermitianPositiveDefinite": {"pair_mean"},
    "SpecialHermitianPositiveDefinite": {"pair_mean", "euclidean_to_riemannian_hessian"},
    "PSDFixedRank": {"pair_mean"}, "PSDFixedRankComplex": {"pair_mean"},
    "Elliptope": {"dist", "log", "pair_mean"},
    "Positive": {"pair_mean"}, "PoincareBall": {"transport"},
    "FixedRankEmbedded": {"dist", "exp", "log", "pair_mean", "euclidean_to_riemannian_hessian"},
}
REQUIRED = {"inner_product", "projection", "norm", "random_point", "random_tangent_vector", "zero_vector"}


def run(rep, tier):
    program = load(oc.ROOT)
    for o in all_spaces(rep, program):
        manifold(rep, o.r, o.s.label(), o.r.cls.name, lambda op, n: ARGS.get(op, (X, U, V, V)[:n]))
    fixed_rank(rep, program)
    bases(rep, program)
    factors = 3 if tier != "quick" else 2
    for n in range(1, factors + 1):
        product(rep, program, n)


def outcome(r, op, args):
    """('value'|'none'|'raises'|'mixed', kinds)"""
    try:
        c = r.call(op, *args)
    except Dead:
        return "raises", ["?"], None
    if c.value is None:
        return "raises", c.raises, c
    v = r.it.resolve(c.value, c.st)
    t = r.it.term(v, c.st)
    if t is NONE:
        return "none", c.raises, c
    return ("mixed" if "NotImplementedError" in c.raises else "value"), c.raises, c


def judge(rep, key, loc, got, kinds, missing, c=None):
    if missing:
        if got == "raises" and kinds == ["NotImplementedError"]:
            rep.ok(key, "refused with NotImplementedError", loc)
        elif got in ("value", "none"):
            rep.bad(key, "returns " + ("None" if got == "none" else "a value") + " although the manifold does not provide the operation", loc)
        elif got == "raises" and "?" not in kinds:
            rep.bad(key, f"raises {', '.join(kinds)} instead of NotImplementedError", loc)
        else:
            rep.unk(key, f"{got} {kinds}", loc)
    else:
        if got == "value":
            rep.ok(key, "returns a value", loc)
        elif got == "none":
            rep.bad(key, "returns None", loc)
        elif got == "raises" and "?" not in kinds:
            rep.bad(key, f"raises {', '.join(kinds)} although the manifold provides the operation", loc)
        else:
            pcs = [s for s in c.sink if s[0] == "NotImplementedError"] if c is not None else []
            rep.unk(key, f"{got} {kinds} " + "; ".join(show(x, 5) for s in pcs for x, q in s[1].pc)[:200], loc)


def stub(f):
    """A method that always raises NotImplementedError by its decorator or body."""
    seen = 0
    while isinstance(f, Func) and seen < 5:
        seen += 1
        if f.wrapped is None:
            return False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Raise) and "NotImplementedError" in ast.dump(n):
                return not any(isinstance(x, ast.Return) for x in ast.walk(f.node))
        f = f.wrapped
    return False


def shadowed(rep, r, label):
    """A stub must not hide an implementation further down the bases."""
    for op in OPS:
        owners = [c for c in r.cls.mro() if isinstance(c, Cls) and op in c.ns]
        if len(owners) < 2:
            continue
        hidden = [c.name for c in owners[1:] if not stub(c.ns[op]) and c.name not in ("Manifold", "RiemannianSubmanifold")]
        if stub(owners[0].ns[op]):
            rep.verdict(f"{op} not hidden@{label}", not [c for c in hidden if not any(k.name == c for k in owners[0].mro()[1:] if isinstance(k, Cls))],
                        f"the stub of {owners[0].name} comes before {hidden}" if hidden else "no implementation is hidden", r.where(op))


def manifold(rep, r, label, cls, args):
    shadowed(rep, r, label)
    for op, n in OPS.items():
        rep.count("operations executed symbolically")
        got, kinds, c = outcome(r, op, args(op, n))
        judge(rep, f"{op}@{label}", r.where(op), got, kinds, op in MISSING.get(cls, ()), c)
        if op == "exp" and c is not None and got == "value":
            warned(rep, r, label, c)
    for a in ("dim", "typical_dist", "point_layout", "num_values"):
        try:
            v, st = r.get(a)
            t = r.it.term(v, st)
            rep.verdict(f"{a}@{label}", t is not NONE, "has a value", r.where(a))
        except Dead:
            rep.bad(f"{a}@{label}", "raises", r.where(a))
    got, kinds, c = outcome(r, "weingarten", args("weingarten", 3))
    if kinds == ["AttributeError"]:
        return
    if got in ("none",):
        rep.bad(f"weingarten@{label}", "returns None", r.where("weingarten"))
    elif got == "raises" and "?" not in kinds:
        rep.verdict(f"weingarten@{label}", kinds == ["NotImplementedError"], f"raises {kinds}", r.where("weingarten"))
    else:
        rep.verdict(f"weingarten@{label}", True if got == "value" else None, "returns a value", r.where("weingarten"))


def warned(rep, r, label, c):
    """An exponential map that merely calls the retraction says so."""
    f, k = r.cls.lookup("exp")
    w = f
    while isinstance(w, Func) and w.wrapped is not None:
        w = w.wrapped
    if k is not None and k.name == "RetrAsExpMixin":
        ok = any(e.kind == "warn" for e in c.events)
        rep.verdict(f"warning@{label}", ok, "the replacement of the exponential map is announced", r.where("exp"))


def fixed_rank(rep, program):
    r = ManRun(program, "FixedRankEmbedded", [sym("m"), sym("n"), sym("k")], {}, c28.Facts())
    if r.ref is None:
        rep.unk("configuration@FixedRankEmbedded", "construction raises")
        return

    def args(op, n):
        def tri(l):
            return Tup([Val(sym(l + str(i))) for i in range(3)])
        out = []
        for i in range(n):
            a = ARGS.get(op)
            point = i == 0 or a is not None and i < len(a) and a[i] is Y
            t = tri("XUVW"[min(i, 3)])
            if op in ("projection", "to_tangent_space", "euclidean_to_riemannian_gradient", "euclidean_to_riemannian_hessian") and not point and i != 3 and op != "to_tangent_space":
                t = Val(sym("A"))
            out.append(t)
        return tuple(out)

    label = "FixedRankEmbedded"
    for op, n in OPS.items():
        try:
            got, kinds, c = outcome(r, op, args(op, n))
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"{op}@{label}", repr(e))
            continue
        judge(rep, f"{op}@{label}", r.where(op), got, kinds, op in MISSING[label], c)


# -- base classes -------------------------------------------------------------


def decorators(names, f):
    out = []
    for d in f.node.decorator_list:
        n = d.func if isinstance(d, ast.Call) else d
        out.append(names.dotted(n) or (n.id if isinstance(n, ast.Name) else "?"))
    return out


class Any_(c28.Facts):
    pass


def bases(rep, program):
    mod = MOD + "manifold"
    tree = program.trees.get(mod)
    m = program.get(mod, "Manifold")
    names = Names(tree if isinstance(tree, ast.AST) else ast.parse(open(oc.ROOT + "/src/" + mod.replace(".", "/") + ".py").read()))
    node = [n for n in ast.walk(tree if isinstance(tree, ast.AST) else ast.parse(open(oc.ROOT + "/src/" + mod.replace(".", "/") + ".py").read())) if isinstance(n, ast.ClassDef) and n.name == "Manifold"]
    meta = False
    for n in node:
        for k in n.keywords:
            if k.arg == "metaclass" and names.dotted(k.value) == "abc.ABCMeta":
                meta = True
        for b in n.bases:
            if names.dotted(b) == "abc.ABC":
                meta = True
    CLASSES.setdefault("Manifold", "manifold")
    CLASSES.setdefault("RiemannianSubmanifold", "manifold")
    for cls in ("Manifold", "RiemannianSubmanifold"):
        r = ManRun(program, cls, [const("name"), sym("d")], {}, c28.Facts())
        if r.ref is None:
            rep.unk(f"construct@{cls}", "raises")
            continue
        for op, n in list(OPS.items()) + [("weingarten", 3)]:
            if cls == "Manifold" and op == "weingarten" or cls == "RiemannianSubmanifold" and op == "euclidean_to_riemannian_gradient":
                # the latter is defined by the projection, which subclasses provide
                continue
            f, owner = r.cls.lookup(op)
            key = f"{op}@{cls} (base)"
            loc = r.where(op)
            if f is None:
                rep.bad(key, "is no part of the interface", loc)
                continue
            w = f
            while isinstance(w, Func) and w.wrapped is not None:
                w = w.wrapped
            abstract = isinstance(w, Func) and any(d.startswith("abc.abstract") for d in decorators(names, w))
            if abstract and meta:
                rep.ok(key, "abstract", loc)
                continue
            args = [sym("p"), sym("a"), sym("b"), sym("c")][:n]
            got, kinds, c = outcome(r, op, args)
            if got == "raises" and kinds == ["NotImplementedError"]:
                rep.verdict(key, op not in REQUIRED or None, "refuses unless implemented", loc)
            elif got == "raises" and "?" not in kinds:
                rep.bad(key, f"raises {', '.join(kinds)} instead of NotImplementedError", loc)
            elif got == "none":
                rep.bad(key, "a manifold that does not implement the operation returns None", loc)
            elif op == "embedding":
                rep.verdict(key, True if r.it.term(c.value, c.st) is args[1] else None, "the tangent vector itself", loc)
            elif got == "value":
                rep.bad(key, f"a manifold that does not implement the operation returns {show(r.it.term(c.value, c.st), 5)}", loc)
            else:
                rep.unk(key, f"{got} {kinds}", loc)
    # attributes
    r = ManRun(program, "Manifold", [const("name"), sym("d")], {}, c28.Facts())
    if r.ref is not None:
        r.it.sinks.append([])
        try:
            r.get("typical_dist")
            rep.bad("typical_dist@Manifold (base)", "has a value although no scale is defined", mod + ":Manifold.typical_dist")
        except Dead:
            kinds = sorted({s[0] for s in r.it.sinks[-1]})
            rep.verdict("typical_dist@Manifold (base)", kinds == ["NotImplementedError"] or (False if "?" not in kinds else None), f"raises {kinds}", mod + ":Manifold.typical_dist")
        finally:
            r.it.sinks.pop()


# -- products -------------------------------------------------------------------


class Factors(c28.Facts):
    def __init__(self, n):
        c28.Facts.__init__(self)
        self.n = n

    def attr(self, t, name):
        if t.op == "sym" and t.args[0].startswith("M") and t.args[0][1:].isdigit():
            if name == "point_layout":
                return const(1)
        return None


def product(rep, program, n):
    for op, k in list(OPS.items()) + [("typical_dist", None), ("dim", None)]:
        for lacking in [None] + (list(range(n)) if op != "dim" else []):
            r = ManRun(program, "Product", [Tup([Val(sym("M%d" % i)) for i in range(n)])], {}, Factors(n))
            if r.ref is None:
                rep.unk(f"construct@Product of {n}", "raises")
                return
            who = sym("M%d" % lacking) if lacking is not None else None

            def refuse(it, st):
                it.sinks[-1].append(("NotImplementedError", st.copy(), Ext("NotImplementedError")))
                raise Dead()

            def mcall(it, st, base, name, args, kwargs, node, who=who, op=op):
                if base.term is who and name == op:
                    refuse(it, st)
                return None

            old = r.hooks.attr

            def attr(it, st, base, name, who=who, op=op, old=old):
                if base.term is who and name == op == "typical_dist":
                    refuse(it, st)
                return old(it, st, base, name)

            r.hooks.mcall = mcall
            r.hooks.attr = attr
            key = f"{op}@Product of {n} factors, " + ("all provide it" if lacking is None else f"factor {lacking + 1} does not provide it")
            loc = r.where(op)
            rep.count("operations executed symbolically")
            if k is None:
                r.it.sinks.append([])
                try:
                    v, st = r.get(op)
                    got, kinds, c = ("none" if r.it.term(v, st) is NONE else "value"), [], None
                except Dead:
                    got, kinds, c = "raises", sorted({s[0] for s in r.it.sinks[-1]}), None
                finally:
                    r.it.sinks.pop()
            else:
                args = [Tup([Val(sym("%s%d" % (l, i))) for i in range(n)]) for l in "abcd"[:k]]
                got, kinds, c = outcome(r, op, args)
            if op == "norm" and lacking is not None:
                # norms are made of the factors' inner products
                if got == "value":
                    rep.ok(key, "computed without the factor's norm", loc)
                    continue
            judge(rep, key, loc, got, kinds, lacking is not None, c)
