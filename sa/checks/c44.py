"""C44: operations have no memory of earlier calls."""
import os

from ..man import ManRun
from ..manobl import *
from ..opt_common import *
from .. import opt_common as oc
from ..memory import Subject, kept, program_classes
from . import c11, c28

RULE = (
    "All operations of each manifold, the methods of problems on every point layout and the matrix helpers are executed abstractly in "
    "sequence; what the calls left in objects, classes, default arguments and module variables is renamed as belonging to earlier arguments "
    "and draws, and each operation is executed again.  Obligation: no value computed for an earlier argument or draw reaches the result."
)
FLOOR = 800


def judge(rep, S, args, draws_only=False):
    n = 0
    for op, kind, detail in kept(S, args):
        key = f"memory@{S.label}.{op}"
        loc = S.where(op)
        rep.count("operations executed twice")
        if kind == "kept" and (not draws_only or "draw" in detail):
            rep.bad(key, f"reuses what was computed for an earlier call ({detail}), kept in {', '.join(S.changed)[:200]}", loc)
        elif kind == "unknown":
            rep.unk(key, detail, loc)
        else:
            rep.ok(key, "independent of earlier calls" if not S.changed else f"independent of what earlier calls left in {', '.join(S.changed)[:200]}", loc)


def owned(t):
    """An array that belongs to the caller."""
    return Val(t, frozenset(["arg:" + t.args[0]]))


def method(it, ref, op, args):
    def make(st):
        return it.getattr(ref, op, st, entry_node("mem:" + op)), list(args), {}
    return make


def subjects(rep, program, opcls):
    """Manifolds, products, problems and helper functions."""
    for o in all_spaces(rep, program):
        r = o.r
        ops = {op: method(r.it, r.ref, op, [owned(c11.NAME[a]) for a in letters]) for op, letters in c11.LETTERS.items()}
        yield Subject(o.s.label(), r.it, r.st, r.ref, ops, opcls(program), r.where), [c11.NAME[a] for a in "xyuvwgh"]
    runs_ = [("FixedRankEmbedded", ManRun(program, "FixedRankEmbedded", [sym("m"), sym("n"), sym("k")], {}, c28.Facts()))]
    for m in (1, 2):
        runs_.append(("Product[%d]" % m, ManRun(program, "Product", [Tup([Val(sym("M%d" % i)) for i in range(m)])], {}, c28.Facts())))
    for label, r in runs_:
        if r.ref is None:
            rep.unk(f"construct@{label}", "construction raises")
            continue
        r.hooks.attr = c11.FieldHooks.attr.__get__(r.hooks)
        names = {a: sym(a) for a in "xyuvwgh"}
        ops = {op: method(r.it, r.ref, op, [owned(names[a]) for a in letters]) for op, letters in c11.LETTERS.items()}
        yield Subject(label, r.it, r.st, r.ref, ops, opcls(program), r.where), list(names.values())


def problem_subjects(rep, program, opcls):
    for label, it, st, ref, layout in c11.problem_objects(rep, program):
        names = []

        def build(a):
            if isinstance(layout, Tup):
                out = []
                for i, n in enumerate(layout.items):
                    if n.term.args[0] == 1:
                        names.append(sym(a + str(i)))
                        out.append(owned(names[-1]))
                    else:
                        q = [sym(a + str(i) + j) for j in "01"]
                        names.extend(q)
                        out.append(Tup([owned(z) for z in q]))
                return Tup(out)
            names.append(sym(a))
            return owned(names[-1])

        ops = {}
        for op, letters in c11.OPERATORS.items():
            s = st.copy()
            it.sinks.append([])
            try:
                it.getattr(ref, op, s, entry_node("p:" + op))
            except Dead:
                continue
            finally:
                it.sinks.pop()
            ops[op] = method(it, ref, op, [build(a) for a in letters])
        yield Subject(label, it, st, ref, ops, opcls(program), lambda op: f"pymanopt.core.problem:Problem.{op}"), names


def function_subjects(rep, program, opcls):
    for mod, fs in c11.PUBLIC.items():
        if "multi" not in mod:
            continue
        space = program.namespace(mod)
        hooks = OptHooks(program)
        hooks.kind = c11.kind_of.__get__(hooks)
        it, st = fresh_interp(program, hooks)
        ops = {}
        args = set()
        for name in fs:
            f = space.get(name)
            if not isinstance(f, Func):
                continue
            ps = [q.arg for q in f.node.args.args]
            vals = [owned(sym("arg." + p)) for p in ps]
            args |= {v.term for v in vals}
            ops[name] = (lambda st, f=f, vals=vals: (f, vals, {}))
        S = Subject(mod, it, st, Ref(-1), ops, opcls(program), lambda op, mod=mod: f"{mod}.{op}")
        yield S, sorted(args, key=lambda t: t.tid)


def run(rep, tier):
    sweep(rep)


def sweep(rep, **kw):
    program = load(oc.ROOT)
    cache = {}

    def opcls(p):
        if id(p) not in cache:
            cache[id(p)] = program_classes(p)
        return cache[id(p)]

    each(rep, subjects(rep, program, opcls), **kw)
    each(rep, problem_subjects(rep, oc.program(oc.ROOT), opcls), **kw)
    each(rep, function_subjects(rep, oc.program(oc.ROOT), opcls), **kw)


def each(rep, gen, **kw):
    for S, args in gen:
        try:
            judge(rep, S, args, **kw)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"analysis@{S.label}", "analysis failed: %r" % e)
