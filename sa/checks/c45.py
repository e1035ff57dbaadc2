"""C45: runs with documented options end with a result, never with an error."""
import math
import re

from ..opt_common import *
from ..interp import Dead
from ..values import Val
from .. import opt_common as oc
from .c12 import closure
from .c31 import stub

RULE = (
    "Every optimizer is executed abstractly twice in a row in every configuration (given and omitted starts, line searchers, levels of "
    "verbosity and logging, reused line searchers).  Obligations: a result is returned and no exception other than the documented refusals "
    "of an unsuitable initial simplex or population is reachable; no name or attribute is used before it is set, in particular in the first "
    "iteration; None is not called, computed with or formatted; calls of the problem, the manifold and the line searcher fit the signatures "
    "of their classes and the kinds of their arguments; format specifications fit what they format; integer conversions are defined for every limit; "
    "derivative-based optimizers and line searchers call only operations that all manifolds of the package provide (transport for conjugate gradient apart); "
    "lists and tuples of a suitable number of points are accepted as a start and simplices of another size refused.  Line searchers are executed on symbolic arguments in the same way."
)
FLOOR = 200
MANIFOLD = mk("attr", PROBLEM, "manifold")
PERMITTED = {"NelderMead": {"ValueError"}, "ParticleSwarm": {"ValueError"}}
# kinds of arguments: p point, v vector or point-like, anything else is not looked at
KINDS = {
    "inner_product": "pvv", "norm": "pv", "retraction": "pv", "exp": "pv", "transport": "ppv", "dist": "pp", "log": "pp", "pair_mean": "pp",
    "projection": "pv", "to_tangent_space": "pv", "random_tangent_vector": "p", "zero_vector": "p", "embedding": "pv",
}
ARITH = {"add", "mul", "div", "pow", "neg", "lt", "le", "max2", "min2"}


def settings():
    for verb, log in ((None, None), (3, 1), (2, 1), (1, 0), (0, 2)):
        ov = {}
        if verb is not None:
            ov = {"verbosity": verb, "log_verbosity": log}
        tag = "" if verb is None else f" verbosity={verb} log_verbosity={log}"
        for o, lab, c, rk, su in configs():
            if verb in (0, 1, 2) and o == "ConjugateGradient" and "HestenesStiefel" not in lab and "default" not in lab:
                continue
            yield o, lab + tag, dict(c, **ov), rk, su
            if o == "SteepestDescent" or o == "ConjugateGradient" and ("HestenesStiefel" in lab or "default" in lab):
                yield o, lab + " reused line searcher" + tag, dict(c, **ov), dict(rk, reuse_line_searcher=True), su


class Both:
    """Two runs of one optimizer, as an ORun for each."""

    def __init__(self, o, label, ov, rk, setup):
        self.hooks = OptHooks(oc.program(oc.ROOT))
        self.it, self.st = fresh_interp(oc.program(oc.ROOT), self.hooks)
        if setup:
            setup(self.it, self.st, self.hooks)
        self.opt, self.label = o, label
        self.ref = instantiate(self.it, self.st, oc.program(oc.ROOT), o, ov)
        self.rk = rk

    def run(self):
        it, st = self.it, self.st
        n0 = len(it.events)
        it.sinks.append([])
        kw = {k: it.lift(v) for k, v in self.rk.items()}
        try:
            f = it.getattr(self.ref, "run", st, entry_node("run"))
            v = it.call(f, [Val(PROBLEM, frozenset(["problem"]))], kw, st, entry_node("run"))
        except Dead:
            v = None
        return v, it.events[n0:], it.sinks.pop()


def terms_of(e):
    out = []
    todo = list(e.data.values())
    while todo:
        v = todo.pop()
        if isinstance(v, (list, tuple)):
            todo += v
        elif isinstance(v, dict):
            todo += v.values()
        elif isinstance(v, Term):
            out.append(v)
        elif isinstance(v, Val):
            out.append(v.term)
    return out


def definite(t):
    """UNDEF is needed to compute t whatever branch is taken."""
    if t is UNDEF:
        return True
    if not has(t):
        return False
    if t.op == "ite":
        return definite(t.args[0])
    if t.op in ("and", "or"):  # operands may be skipped
        return all(definite(a) for a in flat(t.args))
    return any(definite(a) for a in flat(t.args))


_HAS = {}


def has(t):
    if t not in _HAS:
        _HAS[t] = t is UNDEF or any(has(a) for a in flat(t.args))
    return _HAS[t]


def tested(t, assume=()):
    """A test inside t that needs UNDEF, on branches that do not exclude each other."""
    if not has(t):
        return False
    if t.op == "ite":
        c = t.args[0]
        if definite(c) or tested(c, assume):
            return True
        known = dict(assume)
        return any(known.get(c, w) == w and isinstance(b, Term) and tested(b, tuple({**known, c: w}.items())) for w, b in ((True, t.args[1]), (False, t.args[2])))
    if t.op in ("or", "and") and any(definite(a) for a in flat(t.args)):
        return True
    return any(tested(a, assume) for a in flat(t.args))


def flat(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from flat(a)


def nowhere(t):
    """A name that neither the function nor its module nor Python defines."""
    import builtins
    return t.op == "unknown" and t.args and isinstance(t.args[0], str) and t.args[0].startswith("name:") and not hasattr(builtins, t.args[0][5:])


def members(program, mod, name):
    """Names that instances of a class have, with signatures of methods."""
    import ast
    cls = program.get(mod, name)
    out = {}
    for c in cls.mro():
        if not isinstance(c, Cls):
            continue
        for k, v in c.ns.items():
            out.setdefault(k, v)
            node = getattr(v, "node", None)
            for n in ast.walk(node) if node is not None else ():
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.setdefault(n.attr, None)
    return out


def fits(f, args, kwargs):
    """Does a call with so many positional arguments and these keywords bind?  None: not known."""
    node = getattr(f, "node", None)
    a = getattr(node, "args", None)
    if a is None:
        return None
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    if a.vararg is None and len(args) > len(pos):
        return f"{len(args)} arguments for {len(pos)} parameters"
    bound = set(pos[:len(args)])
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in kwargs:
        if k in bound:
            return f"two values for {k}"
        if k not in names and a.kwarg is None:
            return f"no parameter {k}"
    need = pos[:len(pos) - len(a.defaults)]
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    missing = [n for n in need if n not in bound and n not in kwargs]
    return f"nothing is given for {missing[0]}" if missing else ""


def spec_of(t):
    """Format specification at the end of a template."""
    if t.op == "const" and isinstance(t.args[0], str):
        s = t.args[0]
    elif t.op == "fstr":
        s = "".join(a.args[0] if a.op == "const" and isinstance(a.args[0], str) else (str(a.args[1].args[0]) if False else "\0") if isinstance(a, Term) else str(a) for a in t.args)
        last = [a for a in t.args if isinstance(a, Term) and a.op == "fmt"]
        if last and last[-1].args[0].op == "fstr":
            inner = last[-1].args[0]
            s = s.replace("\0", "".join(x.args[0] for x in inner.args if isinstance(x, Term) and x.op == "const" and isinstance(x.args[0], str)))
    else:
        return None
    m = re.search(r"([defgDEFG%])\}*$", s)
    return m.group(1) if m else None


class Kinds:
    def __init__(self, it, man, prob):
        self.it, self.man, self.prob = it, man, prob

    def of(self, t, depth=0):
        """none, callable, array, number, text, or None."""
        if t is NONE:
            return "none"
        if t.op == "attr":
            if t.args[0] is PROBLEM and t.args[1] in ("cost", "riemannian_gradient", "riemannian_hessian", "euclidean_gradient", "euclidean_hessian", "preconditioner"):
                return "callable"
            if t.args[0] is MANIFOLD and t.args[1] in self.man and t.args[1] not in ("dim", "typical_dist", "num_values", "point_layout"):
                return "callable"
        if t.op in ("fstr",) or t.op == "const" and isinstance(t.args[0], str):
            return "text"
        if t is PROBLEM or t is MANIFOLD:
            return "object"
        if t.op == "ite" and depth < 6:
            a, b = self.of(t.args[1], depth + 1), self.of(t.args[2], depth + 1)
            return a if a == b else None
        if t.op == "phi":
            info = self.it.phis.get(t)
            k = self.it.kindof(t)
            return {"scalar": "number", "array": "array"}.get(k)
        return {"scalar": "number", "array": "array"}.get(self.it.kindof(t))


def spec_problem(k, spec, t):
    if spec is None:
        return None
    if k in ("none", "callable", "array", "text", "object"):
        return {"none": "None", "callable": "a function", "array": "an array", "text": "a text", "object": "an object"}[k]
    if spec == "d" and t.op == "mcall" and t.args[0] in ("cost", "norm", "inner_product", "dist"):
        return "a floating point number"
    return None


def conversions(ts):
    """int(f(limit)) that is not defined for some limit."""
    def ev(t, x):
        if t.op == "sym":
            return x
        if t.op == "const":
            return t.args[0]
        if t.op == "npcall":
            a = [ev(s, x) for s in t.args[1]]
            n = t.args[0].split(".")[-1]
            if n in ("log10", "log2", "log") and len(a) == 1:
                if a[0] == 0:
                    return -math.inf
                return getattr(math, n)(a[0])
            if n in ("ceil", "floor", "rint") and len(a) == 1:
                return a[0]
            if n in ("max", "maximum", "min", "minimum") and len(a) == 2:
                return max(a) if n.startswith("max") else min(a)
        if t.op in ("max2", "min2"):
            a = [ev(s, x) for s in t.args]
            return max(a) if t.op == "max2" else min(a)
        if t.op == "add":
            return sum(ev(s, x) for s in t.args)
        if t.op == "ite" and isinstance(t.args[0], Term) and t.args[0].op == "isnone":
            return ev(t.args[2], x)
        raise KeyError
    for t in ts:
        inner = None
        if t.op == "npcall" and t.args[0] == "int" and len(t.args[1]) == 1:
            inner = t.args[1][0]
        elif t.op == "int":
            inner = t.args[0]
        if inner is None:
            continue
        syms = {s for s in subterms(inner) if s.op == "sym" and s.args[0].startswith("cfg.max_")}
        if len(syms) != 1:
            continue
        for x in (0, 1, 1000, math.inf):
            try:
                int(ev(inner, x))
            except (OverflowError, ValueError) as e:
                yield t, next(iter(syms)), x, str(e)
                break
            except (KeyError, TypeError):
                break


def run(rep, tier):
    program = oc.program(oc.ROOT)
    man = members(program, "pymanopt.manifolds.manifold", "Manifold")
    prob = members(program, "pymanopt.core.problem", "Problem")
    searchers = [v for v in program.namespace("pymanopt.optimizers.line_search").values() if isinstance(v, Cls) and v.lookup("search")[0] is not None]
    for o, label, ov, rk, su in settings():
        rep.count("configurations")
        loc = f"{OPTS[o]}:{o}.run"
        try:
            B = Both(o, label, ov, rk, su)
            for n in (1, 2):
                one(rep, B, n, f"run {n}@{label}", loc, man, prob, searchers)
        except Exception as e:
            if __import__("os").environ.get("SA_DEBUG"):
                raise
            rep.unk(f"run@{label}", f"not analysed: {type(e).__name__}", loc)
    for c in searchers:
        loc = f"pymanopt.optimizers.line_search:{c.name}.search"
        rep.count("configurations")
        try:
            S = Search(program, c.name, c)
            for n in (1, 2):
                one(rep, S, n, f"search {n}@{c.name}", loc, man, prob, searchers)
        except Exception as e:
            if __import__("os").environ.get("SA_DEBUG"):
                raise
            rep.unk(f"search@{c.name}", f"not analysed: {type(e).__name__}", loc)


def holds(t, env):
    """Truth of a condition on the given start, None when it depends on more."""
    def num(t):
        if t.op == "const":
            return t.args[0]
        if t.op == "len" and t.args[0] is sym("initial_point"):
            return env["len"]
        if t.op == "attr" and t.args[0] is MANIFOLD and t.args[1] == "dim":
            return env["dim"]
        if t.op == "sym" and t.args[0] in env:
            return env[t.args[0]]
        if t.op == "npcall" and t.args[0] in ("int", "float", "round") and len(t.args[1]) == 1:
            return num(t.args[1][0])
        if t.op in ("add", "mul", "neg"):
            a = [num(x) for x in t.args]
            return sum(a) if t.op == "add" else math.prod(a) if t.op == "mul" else -a[0]
        if t.op == "npcall" and t.args[0] in ("max2", "min2"):
            return (max if t.args[0] == "max2" else min)(num(x) for x in t.args[1])
        if t.op == "ite":
            c = ev(t.args[0])
            if c is not None:
                return num(t.args[1] if c else t.args[2])
        raise KeyError(t.op)

    def ev(t):
        if t.op == "const":
            return bool(t.args[0])
        if t.op == "not":
            v = ev(t.args[0])
            return None if v is None else not v
        if t.op in ("and", "or"):
            vs = [ev(a) for a in t.args]
            stop = t.op == "or"
            return stop if stop in vs else None if None in vs else not stop
        if t.op == "isnone" and t.args[0] is sym("initial_point"):
            return False
        if t.op == "isinstance" and t.args[0] is sym("initial_point") or t.op in ("call", "npcall", "ext") and "isinstance" in show(t, 1)[:11] and sym("initial_point") in subterms(t):
            s = show(t, 4)
            if re.search(r"Sequence|Iterable|Collection|Sized", s) or re.search(r"\b" + env["type"] + r"\b", s):
                return True
            return False if re.search(r"\b(list|tuple|str|bytes)\b", s) and "?" not in s else None
        if t.op in ("eq", "le", "lt"):
            try:
                a, b = num(t.args[0]), num(t.args[1])
            except (KeyError, TypeError):
                return None
            return a == b if t.op == "eq" else a <= b if t.op == "le" else a < b
        return None
    return ev(t)


def starts(rep, B, n, key, loc, sinks):
    """A list of points of a suitable number is not refused; an unsuitable simplex is."""
    if n == 2 or "initial_point" not in B.rk or B.opt not in PERMITTED:
        return
    simplex = B.opt == "NelderMead"
    res, why = True, "a list of suitable length is accepted"
    for dim in (1, 3, 6):
        for k, ty in [(k, ty) for k in ((dim + 1,) if simplex else (1, 5, 40)) for ty in ("list", "tuple")]:
            for s in sinks:
                known = [holds(c, {"len": k, "dim": dim, "type": ty}) for c, w in s[1].pc]
                if all(v is not None and v == bool(w) for v, (c, w) in zip(known, s[1].pc)):
                    res, why = False, f"a {ty} of {k} points is refused in dimension {dim}"
                elif res and not any(v is not None and v != bool(w) for v, (c, w) in zip(known, s[1].pc)):
                    res, why = None, "refusal not decided"
    rep.verdict(f"suitable start {key}", res, why, loc)
    if simplex:
        res, why = True, "a simplex of another size is refused"
        for dim, k in ((1, 1), (3, 3), (3, 5), (6, 1), (2, 6)):
            one = [[(holds(c, {"len": k, "dim": dim, "type": "list"}), bool(w)) for c, w in s[1].pc] for s in sinks]
            if any(all(a == w for a, w in pc) for pc in one):
                continue
            if all(any(a is not None and a != w for a, w in pc) for pc in one):
                res, why = False, f"{k} points are accepted as a simplex in dimension {dim}"
                break
            res, why = None, "refusal not decided"
        rep.verdict(f"unsuitable start {key}", res, why, loc)


class Search:
    """Two searches of one line searcher, as if they were two runs."""

    def __init__(self, program, name, cls):
        self.hooks = OptHooks(program)
        self.it, self.st = fresh_interp(program, self.hooks)
        self.opt = name
        init, _ = cls.lookup("__init__")
        kw = {}
        if init is not None:
            pos, kwo = func_params(init)
            kw = {q: Val(sym("cfg." + q)) for q in pos + kwo}
        self.ref = self.it.instantiate(cls, [], kw, self.st, entry_node("init"))

    def run(self):
        it, st = self.it, self.st
        n0 = len(it.events)
        it.sinks.append([])
        args = [Val(mk("attr", PROBLEM, "cost")), Val(MANIFOLD)] + [Val(sym(x)) for x in ("x", "d", "f0", "df0")]
        try:
            v = it.call(it.getattr(self.ref, "search", st, entry_node("run")), args, {}, st, entry_node("run"))
        except Dead:
            v = None
        return v, it.events[n0:], it.sinks.pop()


def one(rep, B, n, key, loc, man, prob, searchers):
    it = B.it
    v, events, sinks = B.run()
    bad = sorted({s[0] for s in sinks} - PERMITTED.get(B.opt, set()))
    K = Kinds(it, man, prob)
    if bad:
        rep.bad(f"no error {key}", f"raises {bad[0]}", loc)
    else:
        rep.ok(f"no error {key}", "no path raises, but for the documented refusals", loc)
    if isinstance(B, Both):
        starts(rep, B, n, key, loc, [s for s in sinks if s[0] == "ValueError"])
    if v is None:
        rep.bad(f"result {key}", "no path returns", loc)
        return
    v = it.resolve(v, B.st)
    if isinstance(B, Search):
        t = it.term(v, B.st)
        pair = t.op in ("tuple", "list") and len(t.args) == 2
        rep.verdict(f"result {key}", True if pair else False if t.op == "const" or t.op in ("tuple", "list") else None, "a step size and a point" if pair else "something else than a pair is returned", loc)
        good = None
    else:
        good = isinstance(v, Ref) and B.st.heap[v.addr].kind == "inst" and B.st.heap[v.addr].cls.name == "OptimizerResult"
    if good is not None:
        rep.verdict(f"result {key}", True if good else False if isinstance(v, Val) and v.term.op in ("const", "tuple") else None, "an OptimizerResult" if good else "the run returns something else", loc)
    # names
    faults = [e for e in events if e.kind in ("undef", "attrerror")]
    for e in faults[:3]:
        rep.bad(f"bound {key}", f"{e.data.get('name')} is used before it is set", e.loc)
    for e in events:
        u = next((s for t in terms_of(e) if e.kind in ("call", "print") for s in subterms(t) if nowhere(s)), None)
        if u is not None and feasible(e):
            rep.bad(f"bound {key}", f"{u.args[0][5:]} is not defined", e.loc)
            faults.append(e)
            break
    main = [e for e in events if e.kind == "loop" and not e.data["is_for"]]
    early = None
    first = {f: i["entry"] for f, i in it.phis.items() if any(f.args[0] == m.data["lid"] for m in main)}
    if any(x is UNDEF for x in first.values()):
        memo = {}
        for e in events:
            pc = [(subst(c, first, memo), w) for c, w in e.pc]
            if any(c.op == "const" and bool(c.args[0]) != bool(w) for c, w in pc):
                continue
            if any((definite(c) or tested(c, tuple(pc[:i]))) and not definite(e.pc[i][0]) for i, (c, w) in enumerate(pc)):
                early = e
                break
            for t in terms_of(e):
                if e.kind in ("call", "print", "new", "return", "ext", "augassign") and definite(subst(t, first, memo)) and not definite(t):
                    early = e
                    break
            if early:
                break
    if early is not None:
        rep.bad(f"bound {key}", "a name is used in the first iteration before it is set", early.loc)
    if not faults and early is None:
        rep.ok(f"bound {key}", "every name and attribute is set before it is used", loc)
    # calls
    calls = wrong = 0
    doubt = None
    for e in events:
        if e.kind != "call":
            continue
        c = e.data["callee"]
        args, kwargs = e.data.get("args", ()), dict(e.data.get("kwargs") or {})
        if c.op != "attr":
            continue
        base, name = c.args[0], c.args[1]
        calls += 1
        why = None
        if base is NONE:
            why = f"None has no {name}"
        elif base is MANIFOLD or base is PROBLEM:
            table = man if base is MANIFOLD else prob
            what = "manifold" if base is MANIFOLD else "problem"
            if name not in table:
                why = f"{what} has no {name}"
            elif base is MANIFOLD:
                w = fits(table[name], args, kwargs)
                if w:
                    why = f"{name}: {w}"
                ks = KINDS.get(name, "")
                for i, (t, k) in enumerate(zip([it_term(it, a) for a in args], ks)):
                    got = K.of(t) if t is not None else None
                    if why is None and got in ("none", "callable", "number", "text", "object"):
                        why = f"argument {i + 1} of {name} is {'None' if got == 'none' else 'a ' + got}"
            elif name in ("cost", "riemannian_gradient", "euclidean_gradient", "riemannian_hessian", "preconditioner"):
                want = 2 if name in ("riemannian_hessian", "preconditioner") else 1
                if len(args) != want and not kwargs:
                    why = f"{name} is called with {len(args)} arguments"
                for i, a in enumerate(args):
                    t = it_term(it, a)
                    got = K.of(t) if t is not None else None
                    if why is None and got in ("none", "callable", "number", "text", "object"):
                        why = f"argument {i + 1} of {name} is {'None' if got == 'none' else 'a ' + got}"
        elif name == "search" and not kwargs:
            if K.of(base) in ("array", "number", "callable", "text") or base is MANIFOLD or base is PROBLEM:
                why = "search is called on " + show(base, 3)
            for s in searchers:
                w = fits(s.lookup("search")[0], args, kwargs)
                if w and why is None:
                    why = f"search: {w}"
        elif K.of(base) in ("array", "number", "callable") and name in man:
            why = f"{name} is called on " + show(base, 3)
        if why and feasible(e):
            wrong += 1
            if wrong <= 3:
                rep.bad(f"call {key}", why, e.loc)
    if not wrong:
        rep.ok(f"call {key}", f"{calls} calls of the problem, the manifold and the line searcher fit their signatures", loc)
    provided(rep, it.p, B.opt, events, key, loc)
    # values
    ts = []
    for e in events:
        ts += terms_of(e) if e.kind != "loop" else []
    seen = closure([t for t in ts], {f: i for f, i in it.phis.items() if i["entry"] is not UNDEF})
    none = next((t for t in seen if t.op in ARITH and any(a is NONE for a in t.args)), None)
    rep.verdict(f"None {key}", none is None, "None is not computed with" if none is None else "None in " + show(none, 3), loc)
    fm = None
    count = 0
    for t in seen:
        if t.op == "mcall" and t.args[0] == "format":
            spec = spec_of(t.args[1])
            for a in list(t.args[2]) + [v for _, v in t.args[3]]:
                count += 1
                w = spec_problem(K.of(a), spec, a)
                if w:
                    fm = (w, spec)
        if t.op == "fmt":
            spec = t.args[1]
            spec = spec.args[0] if isinstance(spec, Term) and spec.op == "const" else spec
            m = re.search(r"([defgDEFG%])$", spec) if isinstance(spec, str) else None
            count += 1
            w = spec_problem(K.of(t.args[0]), m.group(1) if m else None, t.args[0])
            if w:
                fm = (w, spec)
    rep.verdict(f"format {key}", fm is None, f"{count} formatted values fit their specifications" if fm is None else f"{fm[0]} is formatted by {fm[1]!r}", loc)
    cv = next(conversions(seen), None)
    rep.verdict(f"conversion {key}", cv is None, "integer conversions are defined for every limit" if cv is None else f"{show(cv[0], 4)} fails for {cv[1].args[0][4:]} = {cv[2]}: {cv[3]}", loc)


OPTIONAL = ("exp", "log", "dist", "retraction", "transport", "pair_mean", "to_tangent_space", "typical_dist", "weingarten", "embedding")
_LACK = {}


def lacking(program):
    """Optional operations, with the manifolds of the package that refuse them."""
    if program not in _LACK:
        base = program.get("pymanopt.manifolds.manifold", "Manifold")
        out = {op: [] for op in OPTIONAL}
        for name, c in program.namespace("pymanopt.manifolds").items():
            if not isinstance(c, Cls) or not c.is_sub(base) or name in ("Manifold", "RiemannianSubmanifold", "Product"):
                continue
            for op in OPTIONAL:
                f, _ = c.lookup(op)
                if f is None or isinstance(f, Func) and stub(f):
                    out[op].append(name)
        _LACK[program] = out
    return _LACK[program]


def catches(program, e):
    """The call stands in a try statement that handles a refusal."""
    import ast
    tree = program.trees.get(e.mod)
    if tree is None:
        return True
    line = getattr(e.node, "lineno", None)
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and t.body and line is not None and t.body[0].lineno <= line <= t.body[-1].end_lineno:
            return True
    return False


def provided(rep, program, opt, events, key, loc):
    """Derivative-based optimizers and line searches need no operation that some manifold refuses.

    Nelder-Mead and the particle swarm are defined through logarithms and geodesics; conjugate directions must be transported."""
    if opt in ("NelderMead", "ParticleSwarm"):
        return
    lack = lacking(program)
    n = 0
    for e in events:
        if e.kind != "call" or e.data["callee"].op != "attr" or e.data["callee"].args[0] is not MANIFOLD:
            continue
        op = e.data["callee"].args[1]
        if op not in lack or op == "transport" and opt == "ConjugateGradient":
            continue
        n += 1
        if lack[op] and feasible(e) and not catches(program, e):
            rep.bad(f"provided {key}", f"{op} is needed, which {', '.join(lack[op])} refuse(s)", e.loc)
            return
    rep.ok(f"provided {key}", f"{n} calls of optional operations are provided by every manifold", loc)


def it_term(it, a):
    if isinstance(a, Term):
        return a
    return a.term if isinstance(a, Val) else None


def feasible(e):
    """The path condition holds no contradiction that is visible."""
    seen = {}
    for c, w in e.pc:
        if c.op == "const" and bool(c.args[0]) != bool(w):
            return False
        if seen.setdefault(c, w) != w:
            return False
    return True
