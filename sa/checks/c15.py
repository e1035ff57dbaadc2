"""C15: problems derive gradients and Hessians from the right ingredients."""
import os

from ..problems import *
from .. import opt_common as oc

RULE = (
    "Problem objects are executed abstractly for every combination of given derivatives and several point layouts, the user's functions, "
    "the operators generated by automatic differentiation and the conversions of the manifold being opaque.  Obligation: each of cost, "
    "gradients, Hessians and preconditioner, called first or after all others, is the call of the given or generated operator at the same point "
    "and direction, converted by the manifold from exactly these ingredients; and Function objects hand the user's function and the number of "
    "arguments of the manifold to the backend."
)
FLOOR = 300


def compare(rep, key, C, op, v, raised, st, loc, view):
    want = C.expected(op)
    if v is None:
        rep.bad(key, "raises an error for a valid point: " + "; ".join(sorted({str(e.data.get("exc", "")) if hasattr(e, "data") else str(e)[:80] for e in raised}))[:200], loc)
        return
    got = result(C.it, st, v)
    if view(got) == view(want):
        rep.ok(key, text(want), loc)
    elif recognised(got):
        rep.bad(key, f"is {text(got)}, expected {text(want)}", loc)
    else:
        rep.unk(key, f"not recognised: {text(got)[:300]}", loc)


def ingredients(x):
    return [deep_flat(t) if t is not None else None for t in flat(x)]


def run(rep, tier, view=ingredients, layouts=None, lists=(False,), points=(False,), what="ingredients", shapes=False):
    program = oc.program(oc.ROOT)
    layouts = layouts or ([1, 3, (1, 2, 1)] if tier == "quick" else LAYOUTS)
    for C in cases(rep, program, layouts, lists=lists):
        try:
            case(rep, C, view, points, what, shapes)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"analysis@{C.label}", "analysis failed: %r" % e)
    if what == "ingredients":
        function(rep, program)


def case(rep, C, view, points, what, shapes):
    where = "pymanopt.core.problem:Problem."
    for pl in points:
        after = C.st.copy()
        for op in LETTERS:
            if C.prec and op != "preconditioner":
                continue
            rep.count("problem methods executed")
            tag = f"{what}@{C.label}.{op}" + (" on lists" if pl else "")
            s = C.st.copy()
            v, r = C.call(op, s, pl)
            compare(rep, tag, C, op, v, r, s, where + op, view)
            # whatever was called before
            C.call(op, after, pl)
        for op in reversed(list(LETTERS)):
            if C.prec and op != "preconditioner":
                continue
            v, r = C.call(op, after, pl)
            compare(rep, f"{what} after other calls@{C.label}.{op}" + (" on lists" if pl else ""), C, op, v, r, after, where + op, view)
    if shapes and C.layout != 1 and not isinstance(C.layout, int):
        for extra in (-1, 1):
            C.hooks.extra = extra
            for op in LETTERS:
                if op in ("cost", "preconditioner") or C.prec:
                    continue
                s = C.st.copy()
                v, r = C.call(op, s)
                key = f"wrong number of results@{C.label}.{op}"
                if v is None:
                    rep.ok(key, "raises", where + op)
                else:
                    rep.bad(key, f"an operator returning {size(C.layout) + extra} values for {size(C.layout)} components is accepted", where + op)
            C.hooks.extra = 0


class FunctionHooks(OptHooks):
    def __init__(self, program):
        OptHooks.__init__(self, program)
        self.assume[Truthy(mk("mcall", "is_available", sym("backend"), (), ()))] = True
        self.assume[Truthy(mk("callable", sym("user.f")))] = True

    def isinstance_(self, t, c):
        return None


def function(rep, program):
    cls = program.get("pymanopt.autodiff", "Function")
    hooks = FunctionHooks(program)
    it, st = fresh_interp(program, hooks)
    M, B, F = sym("manifold"), sym("backend"), sym("user.f")
    it.sinks.append([])
    try:
        ref = it.instantiate(cls, [], {"function": Val(F), "manifold": Val(M), "backend": Val(B)}, st, entry_node("fn"))
    except Dead:
        ref = None
    it.sinks.pop()
    if ref is None:
        rep.unk("construct@Function", "construction raises")
        return
    n = mk("attr", M, "num_values")
    want = {
        "get_gradient_operator": mk("mcall", "generate_gradient_operator", B, (F, n), ()),
        "get_hessian_operator": mk("mcall", "generate_hessian_operator", B, (F, n), ()),
        "__call__": mk("call", mk("mcall", "prepare_function", B, (F,), ()), (sym("x"), sym("y")), ()),
    }
    params = {"generate_gradient_operator": ["function", "num_arguments"], "generate_hessian_operator": ["function", "num_arguments"], "prepare_function": ["function"]}

    def positional(t):
        if t.op == "mcall" and t.args[0] in params and t.args[3]:
            kw = dict(t.args[3])
            full = list(t.args[2])
            for p in params[t.args[0]][len(full):]:
                if p in kw:
                    full.append(kw.pop(p))
            return mk("mcall", t.args[0], t.args[1], tuple(full), tuple(sorted(kw.items())))
        if t.op == "call":
            return mk("call", positional(t.args[0]), t.args[1], t.args[2])
        return t

    for t in [B, F, *want.values()]:
        hooks.assume[Isnone(t)] = False
    after = st.copy()
    for rnd in ("", " after other calls"):
        for op, w in want.items():
            s = st.copy() if not rnd else after
            it.sinks.append([])
            try:
                f = it.getattr(ref, op, s, entry_node("f:" + op))
                v = it.call(f, [Val(sym("x")), Val(sym("y"))] if op == "__call__" else [], {}, s, entry_node("fc:" + op))
            except Dead:
                v = None
            it.sinks.pop()
            key = f"backend{rnd}@Function.{op}"
            loc = f"pymanopt.autodiff:Function.{op}"
            if v is None:
                rep.bad(key, "raises", loc)
                continue
            t = it.term(it.resolve(v, s), s)
            if positional(t) is w:
                rep.ok(key, show(w, 9), loc)
            elif recognised(t):
                rep.bad(key, f"is {show(t, 9)}, expected {show(w, 9)}", loc)
            else:
                rep.unk(key, f"not recognised: {show(t, 9)}", loc)
        for op in want:
            it.sinks.append([])
            try:
                f = it.getattr(ref, op, after, entry_node("f:" + op))
                it.call(f, [Val(sym("x")), Val(sym("y"))] if op == "__call__" else [], {}, after, entry_node("fc:" + op))
            except Dead:
                pass
            it.sinks.pop()
