"""C32: the diagnostics measure what they claim."""
from ..opt_common import *
from ..opt import PROBLEM, MANIFOLD, OptHooks, fresh_interp, entry_node
from .. import opt_common as oc

RULE = (
    "The diagnostics are executed abstractly for a given point and direction and for omitted ones.  The error over the grid of steps is read "
    "elementwise (loops that fill an array, comprehensions, polyval, arithmetic) and compared, as a normal form in the step t, with "
    "|f(x) + t<grad,d> (+ t^2/2 <Hess d,d>) - f(c(t))|, c the exponential map where provided, else the retraction.  Reported defects (tangency, "
    "linearity, symmetry) are compared with their definitions; slopes of reference lines with the stated orders; the line fit with its window."
)
FLOOR = 40

MOD = "pymanopt.tools.diagnostics"
TAU = sym("t")
X, D = sym("x"), sym("d")
MAN = sym("manifold")


class DHooks(OptHooks):
    def __init__(self, program, given):
        OptHooks.__init__(self, program)
        self.plots = []
        for g in given:
            self.assume[Isnone(g)] = False

    def kind(self, t):
        if t is X or t is D:
            return "array"
        return OptHooks.kind(self, t)

    def ext_call(self, it, st, name, args, kwargs, node):
        if "pyplot" in name or name.startswith("plt."):
            try:
                self.plots.append((name.rsplit(".", 1)[1], [it.term(a, st) for a in args], {k: it.term(v, st) for k, v in kwargs.items()}))
            except Exception:
                self.plots.append((name.rsplit(".", 1)[1], None, {}))
        return None


class Run:
    def __init__(self, program, name, args, kw, given):
        self.hooks = DHooks(program, given)
        f = program.namespace(MOD).get(name)
        self.found = f is not None
        self.loc = f"{MOD}:{name}"
        if not self.found:
            return
        it, st = fresh_interp(program, self.hooks)
        self.it, self.st = it, st
        it.sinks.append([])
        self.value = None
        try:
            v = it.call(f, [Val(a) for a in args], kw, st, entry_node("d32"))
            self.value = it.term(v, st)
            self.alive = True
        except Dead:
            self.alive = False
        self.sinks = it.sinks.pop()
        self.alg = Alg(is_vec=lambda t: it.kindof(t) == "array" or t in (X, D))
        self.events = it.events

    def calls(self, name):
        for e in self.events:
            if e.kind == "call" and e.data["callee"].op == "attr" and e.data["callee"].args[1] == name:
                yield e

    # -- elementwise reading ------------------------------------------------

    def elem(self, t):
        """The entry of the array t that belongs to step TAU (None: unknown)."""
        self.grids = getattr(self, "grids", set())
        memo = {}

        def grid(t):
            return t.op == "npcall" and t.args[0] in ("logspace", "geomspace")

        def scalar(t):
            return not contains(t, lambda s: grid(s) or s.op in ("phi", "map", "hole"))

        def go(t):
            if t not in memo:
                memo[t] = go_(t)
            return memo[t]

        def idx(val, i):
            # replace grid entries by TAU
            def rep(s):
                if s.op == "select" and grid(s.args[0]) and s.args[1] is i:
                    self.grids.add(s.args[0])
                    return TAU
                if s.op == "idx":
                    return None
                if not s.args or s.op in ("const", "sym"):
                    return s
                out = []
                for a in s.args:
                    if isinstance(a, Term):
                        b = rep(a)
                        if b is None:
                            return None
                        out.append(b)
                    elif isinstance(a, tuple):
                        bs = []
                        for y in a:
                            if isinstance(y, Term):
                                b = rep(y)
                                if b is None:
                                    return None
                                bs.append(b)
                            else:
                                bs.append(y)
                        out.append(tuple(bs))
                    else:
                        out.append(a)
                return rebuild(s.op, *out)
            return rep(val)

        def go_(t):
            if grid(t):
                self.grids.add(t)
                return TAU
            if t.op == "const" or scalar(t) and self.it.kindof(t) != "array" and t.op not in ("npcall", "list", "tuple"):
                return t
            if t.op in ("add", "mul", "div", "neg", "pow"):
                r = [go(a) for a in t.args]
                return None if any(x is None for x in r) else rebuild(t.op, *r)
            if t.op == "npcall":
                n, a = t.args[0], t.args[1]
                if n in ("abs", "absolute", "fabs", "log10", "log", "sqrt", "square", "array", "asarray", "real") and len(a) == 1:
                    r = go(a[0])
                    if r is None:
                        return None
                    if n in ("array", "asarray", "real"):
                        return r
                    if n == "square":
                        return Arith("mul", r, r)
                    return mk("npcall", "abs" if n in ("absolute", "fabs") else n, (r,), ())
                if n == "polyval" and len(a) == 2 and a[0].op in ("list", "tuple"):
                    s = go(a[1])
                    if s is None:
                        return None
                    r = ZERO
                    for c in a[0].args:
                        if not scalar(c):
                            return None
                        r = Arith("add", Arith("mul", r, s), c)
                    return r
                if scalar(t):
                    return t
                return None
            if t.op == "phi":
                p = self.it.phis.get(t)
                if not p:
                    return None
                b, e = p.get("back"), p.get("entry")
                if b is None:
                    return None
                if b.op == "store" and b.args[0] is t and b.args[1].op == "idx":
                    return idx(b.args[2], b.args[1])
                if b.op == "append" and b.args[0] is t and e is not None and e.op == "list" and not e.args:
                    i = [s for s in subterms(b.args[1]) if s.op == "idx"]
                    if len(set(i)) == 1:
                        return idx(b.args[1], i[0])
                return None
            if t.op == "map":
                r = t.args[0]
                if grid(t.args[1]):
                    self.grids.add(t.args[1])
                    m = {h: TAU for h in subterms(r) if h.op == "hole"}
                    return subst(r, m) if len(m) == 1 else None
            return None

        return go(t)


def method(base, name, *a):
    return mk("mcall", name, base, tuple(a), ())


def is_manifold_term(t):
    return t is MAN or t is MANIFOLD


def raises_atoms(t):
    return sorted({s for s in subterms(t) if s.op == "raises"}, key=lambda s: s.tid)


SAFE_OPS = {"const", "sym", "add", "mul", "neg", "div", "pow", "mcall", "attr", "fresh", "npcall", "select", "random", "tuple", "ite", "raises", "eq", "lt", "le", "truthy",
            "list", "num", "poly", "rat"}
SAFE_CALLS = {"abs", "sqrt", "log10", "logspace", "geomspace", "array", "normal", "random"}


def plain(t):
    for s in subterms(t):
        if s.op not in SAFE_OPS:
            return False
        if s.op == "npcall" and s.args[0] not in SAFE_CALLS:
            return False
        if s.op == "mcall" and s.args[1] not in (PROBLEM, MANIFOLD, MAN):
            return False
    return True


def same_up_to_sign(alg, a, b):
    v, w = alg.equal(a, b)
    if v is True:
        return True
    v2, _ = alg.equal(a, Neg(b))
    if v2 is True:
        return True
    return False if v is False and v2 is False else None


def run(rep, tier):
    program = oc.program(oc.ROOT)
    rep.count("diagnostics", 4)
    for quadratic in (False, True):
        for case in ("given", "point", "none"):
            directional(rep, program, quadratic, case)
    for name, order in (("check_gradient", 1), ("check_hessian", 2)):
        for case in ("given", "point", "none"):
            derivative(rep, program, name, order, case)
    for name in ("check_directional_derivative", "check_gradient", "check_hessian"):
        refused(rep, program, name)
    for case in ("given", "point", "none"):
        retraction(rep, program, case)


def arguments(case):
    if case == "given":
        return [X, D], (X, D)
    if case == "point":
        return [X, NONE], (X,)
    return [NONE, NONE], ()


def where(R, case, base, rep, key):
    """Point and direction the run works with; None when they are not right."""
    if case == "given":
        return X, D
    x = X
    if case == "none":
        ev = [e for e in R.calls("random_point") if e.data["callee"].args[0] is base]
        if not ev:
            rep.bad(f"point@{key}", "no point is drawn from the manifold when none is given", R.loc)
            return None
        x = ev[0].data["result"]
        rep.ok(f"point@{key}", "drawn with random_point of the manifold", R.loc)
    ev = [e for e in R.calls("random_tangent_vector") if e.data["callee"].args[0] is base]
    if not ev:
        rep.bad(f"direction@{key}", "no direction is drawn when none is given", R.loc)
        return None
    e = ev[0]
    if e.data["args"][:1] != (x,):
        rep.bad(f"direction@{key}", f"the direction is drawn at {show(e.data['args'][0], 5) if e.data['args'] else '?'}, not at the point of the check", e.loc)
        return None
    rep.ok(f"direction@{key}", "drawn with random_tangent_vector at the point", R.loc)
    return x, e.data["result"]


def model(x, d, order):
    t = method(PROBLEM, "cost", x)
    g = method(PROBLEM, "riemannian_gradient", x)
    t = Arith("add", t, Arith("mul", TAU, method(MANIFOLD, "inner_product", x, g, d)))
    if order == 2:
        h = method(PROBLEM, "riemannian_hessian", x, d)
        t = Arith("add", t, Arith("mul", Arith("mul", const(0.5), Arith("mul", TAU, TAU)), method(MANIFOLD, "inner_product", x, h, d)))
    return t


def taylor(rep, R, err, x, d, order, key):
    e = R.elem(err)
    if e is None:
        rep.unk(f"model@{key}", f"error not read elementwise: {show(err, 6)[:200]}", R.loc)
        return
    ats = raises_atoms(e)
    names = {a.args[0] for a in ats}
    if len(ats) > 1:
        rep.unk(f"model@{key}", "curve depends on several exceptions", R.loc)
        return
    step = Arith("mul", TAU, d)
    for provided in (True, False):
        asg = {a: (FALSE if provided else TRUE) for a in ats}
        got = subst(e, asg)
        curve = method(MANIFOLD, "exp" if provided else "retraction", x, step)
        want = mk("npcall", "abs", (Arith("sub", model(x, d, order), method(PROBLEM, "cost", curve)),), ())
        k = f"model with {'exp' if provided else 'retraction only'}@{key}"
        v, w = R.alg.equal(got, want)
        if v is True:
            rep.ok(k, f"error = |order {order} model - cost along the curve|", R.loc)
        elif v is False and plain(got):
            rep.bad(k, f"the compared quantities are {show(got, 12)[:400]}; expected {show(want, 12)[:400]}", R.loc)
        else:
            rep.unk(k, f"not recognised: {show(got, 10)[:300]}", R.loc)
    if ats and not names <= {"NotImplementedError", "Exception"}:
        rep.bad(f"fallback@{key}", f"the retraction replaces a missing exponential map only on {sorted(names)}", R.loc)
    elif ats:
        rep.ok(f"fallback@{key}", "the retraction is used when exp is not provided", R.loc)
    else:
        rep.unk(f"fallback@{key}", "no alternative curve seen", R.loc)
    for g in R.grids:
        lo, hi = grid_range(g)
        if lo is None:
            rep.unk(f"grid@{key}", show(g, 5), R.loc)
        else:
            rep.verdict(f"grid@{key}", True if lo < hi <= 1 and hi / lo >= 1e3 else False, f"steps from {lo:g} to {hi:g}", R.loc)


def grid_range(g):
    a = g.args[1]
    if len(a) >= 2 and a[0].op == "const" and a[1].op == "const":
        try:
            lo, hi = float(a[0].args[0]), float(a[1].args[0])
            return (10 ** lo, 10 ** hi) if g.args[0] == "logspace" else (lo, hi)
        except (TypeError, ValueError, OverflowError):
            pass
    return None, None


def directional(rep, program, quadratic, case):
    args, given = arguments(case)
    R = Run(program, "check_directional_derivative", [PROBLEM] + args, {"use_quadratic_model": Val(TRUE if quadratic else FALSE)}, given)
    key = f"check_directional_derivative(order {2 if quadratic else 1}, {case})"
    if not R.found:
        rep.unk(f"found@{key}", "function not found", MOD)
        return
    if not R.alive:
        rep.bad(f"returns@{key}", "raises", R.loc)
        return
    xd = where(R, case, MANIFOLD, rep, key)
    if xd is None:
        return
    v = R.value
    if v is None or v.op not in ("tuple", "list") or len(v.args) != 4:
        rep.unk(f"result@{key}", show(v, 4)[:200] if v is not None else "?", R.loc)
        return
    h, err, seg, poly = v.args
    taylor(rep, R, err, xd[0], xd[1], 2 if quadratic else 1, key)
    e = R.elem(h)
    rep.verdict(f"steps@{key}", True if e is TAU and {h} == R.grids else None, "the returned steps are those of the errors", R.loc)
    if case == "given":
        fit(rep, R, h, err, seg, poly, key)


def branch(t, c, v):
    return subst(t, {c: TRUE if v else FALSE})


def fit(rep, R, h, err, seg, poly, key):
    """Both results of the line fit, with all residuals zero and otherwise."""
    conds = [s for s in subterms(poly) if s.op == "ite"]
    cs = {s.args[0] for s in conds}
    if len(cs) != 1:
        rep.unk(f"fit@{key}", "more than one case", R.loc)
        return
    c = cs.pop()
    threshold(rep, R, c, err, key)
    for val in (True, False):
        p, s = branch(poly, c, val), branch(seg, c, val)
        calls = polyfits(R, p)
        window(rep, R, p, s, calls, h, err, f"{key}, case {'exact' if val else 'general'}")


def polyfits(R, t):
    out = set()
    seen = set()

    def go(t):
        for s in subterms(t):
            if s in seen:
                continue
            seen.add(s)
            if s.op == "npcall" and s.args[0] == "polyfit":
                out.add(s)
            if s.op == "phi" and s in R.it.phis:
                for k in ("back", "entry"):
                    b = R.it.phis[s].get(k)
                    if b is not None:
                        go(b)
    go(t)
    return out


def degree(c):
    a, kw = c.args[1], dict(c.args[2])
    d = a[2] if len(a) > 2 else kw.get("deg")
    return d


def log10_of(R, t, base):
    """t = log10(base + small) elementwise."""
    if t.op == "npcall" and t.args[0] == "log10":
        b = t.args[1][0]
        if b is base:
            return True
        if b.op == "add" and base in b.args:
            o = [a for a in b.args if a is not base]
            if len(o) != 1:
                return None
            if o[0].op == "const" and isinstance(o[0].args[0], (int, float)):
                return abs(o[0].args[0]) <= 1e-10
            return True if o[0].op == "attr" and o[0].args[1] in ("eps", "tiny") or not contains(o[0], lambda s: s.op == "phi") else None
        return False if R.elem(b) is not None and plain(R.elem(b)) else None
    return False if t is base else None


def reached(R, t, stop=()):
    """Subterms of t, through the values carried by loops."""
    out, todo = set(), [t]
    while todo:
        for s in subterms(todo.pop()):
            if s in out:
                continue
            out.add(s)
            if s.op == "phi" and s in R.it.phis:
                todo += [b for k in ("back", "entry") for b in [R.it.phis[s].get(k)] if b is not None]
    return out


def criterion(R, t, err):
    """Is t (one number per window) made of the residuals of the fits?  False: of their coefficients alone."""
    picks = {s.args[1] for s in reached(R, t) if s.op in ("select", "getitem") and s.args[0].op == "npcall" and s.args[0].args[0] == "polyfit"}
    if any(not (k.op == "const" and k.args[0] == 0) for k in picks):
        return True if all(k.op == "const" for k in picks) and ONE in picks else None
    if not picks:
        return None
    # coefficients alone: the data must not occur outside the fits
    cut = {}
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u is err:
            return None
        if u.op == "npcall" and u.args[0] == "polyfit":
            continue
        if u.op == "phi" and u in R.it.phis:
            todo += [b for k in ("back", "entry") for b in [R.it.phis[u].get(k)] if b is not None and b.op != "npcall"]
            continue
        for a in u.args:
            todo += [a] if isinstance(a, Term) else [y for y in a if isinstance(y, Term)] if isinstance(a, tuple) else []
    return False


def threshold(rep, R, c, err, key):
    """The model counts as exact only when the errors are numerically zero."""
    t = c
    while t.op in ("truthy",):
        t = t.args[0]
    if t.op == "npcall" and t.args[0] == "all" and t.args[1][0].op in ("lt", "le") and t.args[1][0].args[0] is err:
        b = t.args[1][0].args[1]
        if b.op == "const" and isinstance(b.args[0], (int, float)):
            rep.verdict(f"exact@{key}", 0 < b.args[0] <= 1e-8, f"all errors below {b.args[0]:g} count as zero", R.loc)
            return
        rep.unk(f"exact@{key}", show(b, 5)[:150], R.loc)
    elif t.op == "npcall" and t.args[0] == "any" and t.args[1][0].op in ("lt", "le") and t.args[1][0].args[0] is err:
        rep.bad(f"exact@{key}", "a single small error makes the model count as exact", R.loc)
    else:
        rep.unk(f"exact@{key}", show(t, 5)[:150], R.loc)


def window(rep, R, p, s, calls, h, err, key):
    """The fitted line belongs to the reported segment."""
    if len(calls) != 1:
        rep.unk(f"fit@{key}", f"{len(calls)} line fits", R.loc)
        return
    c = calls.pop()
    d = degree(c)
    rep.verdict(f"degree@{key}", None if d is None or d.op != "const" else d is ONE, "a line is fitted", R.loc)
    if len(c.args[1]) < 2:
        rep.unk(f"axes@{key}", "arguments by name", R.loc)
        return
    x, y = c.args[1][:2]
    if x.op == "select" and y.op == "select" and x.args[0].op != "npcall" and False:
        return
    sx = sy = None
    if x.op == "select" and x.args[1].op in ("range", "slice_obj"):
        x, sx = x.args
    if y.op == "select" and y.args[1].op in ("range", "slice_obj"):
        y, sy = y.args
    rep.verdict(f"window@{key}", True if sx is sy else None if sx is None or sy is None else (False if all(q.op == "range" for q in (sx, sy)) and R.alg.equal(sx, sy)[0] is False else None),
                "both coordinates use the same window", R.loc)
    a = log10_of(R, x, h)
    b = log10_of(R, y, err) if "general" in key else (True if y is err else None)
    rep.verdict(f"axes@{key}", False if False in (a, b) else True if a and b else None, "log10 of the errors over log10 of the steps", R.loc)
    # the segment is the one of the fit with the least residual
    if sx is not None and sx.op == "range":
        ids = [q for q in subterms(sx) if q.op == "idx"]
        if len(set(ids)) != 1:
            rep.unk(f"segment@{key}", "", R.loc)
            return
        col = [q for q in subterms(p) if q.op in ("npcall", "mcall") and "argm" in str(q.args[0])]
        if len(set(col)) != 1:
            fixed = [q for q in subterms(p) if q.op in ("getitem", "select") and q.args[0].op == "phi" and not contains(q.args[1], lambda z: z.op not in ("const", "tuple", "slice_obj"))]
            if fixed and not col and p.op != "phi":
                rep.bad(f"best@{key}", f"the reported line is that of a fixed window: {show(fixed[0], 4)}", R.loc)
            else:
                rep.unk(f"segment@{key}", "index of the best window not found", R.loc)
            return
        best = col[0]
        want = subst(sx, {ids[0]: best})
        v, w = R.alg.equal(mk("tuple", *want.args), mk("tuple", *s.args)) if s.op == "range" else (None, "")
        if s.op != "range" and not contains(s, lambda q: q is best) and (s.op == "phi" or s.op == "last"):
            v = False
        rep.verdict(f"segment@{key}", v, "the reported segment is the window of the reported line", R.loc)
        name = best.args[0]
        if name == "argmin":
            r = best.args[1][0] if best.op == "npcall" else best.args[1]
            rep.verdict(f"best@{key}", criterion(R, r, err), "the window with the smallest residual", R.loc)
        elif name == "argmax":
            r = best.args[1][0] if best.op == "npcall" else best.args[1]
            rep.verdict(f"best@{key}", False if r.op == "phi" else None, "the window with the largest residual is taken", R.loc)
        else:
            rep.unk(f"best@{key}", name, R.loc)


def refused(rep, program, name):
    R = Run(program, name, [PROBLEM, NONE, D], {}, (D,))
    key = f"{name}(direction without point)"
    if not R.found:
        rep.unk(f"refused@{key}", "function not found", MOD)
        return
    kinds = [s[0] for s in R.sinks]
    if R.alive:
        rep.bad(f"refused@{key}", "is accepted although the direction has no point to be tangent at", R.loc)
    else:
        rep.verdict(f"refused@{key}", True if "ValueError" in kinds else None, f"raises {kinds}", R.loc)


def printed(R):
    """Values that are printed, and whether all of them were read."""
    out, sure = [], True
    for e in R.events:
        if e.kind != "print":
            continue
        for a in e.data["args"]:
            if not isinstance(a, Term):
                sure = False
                continue
            ats = [a] if a.op != "fstr" else [x for x in a.args if isinstance(x, Term)]
            for x in ats:
                if x.op == "fmt":
                    x = x.args[0]
                if x.op == "const" or contains(x, lambda s: s.op == "attr" and s.args[1] == "__class__") or x.op == "fresh" and "__name__" in str(x.args[0]):
                    continue
                out.append((x, e))
                if not plain(x):
                    sure = False
    return out, sure


def derivative(rep, program, name, order, case):
    args, given = arguments(case)
    R = Run(program, name, [PROBLEM] + args, {}, given)
    key = f"{name}({case})"
    if not R.found:
        rep.unk(f"found@{key}", "function not found", MOD)
        return
    if not R.alive:
        rep.bad(f"returns@{key}", "raises", R.loc)
        return
    xd = where(R, case, MANIFOLD, rep, key)
    if xd is None:
        return
    x, d = xd
    # the plotted errors
    curves = [(n, a, kw) for n, a, kw in R.hooks.plots if n == "loglog" and a and len(a) >= 2]
    errs = []
    for n, a, kw in curves:
        R.grids = set()
        e = R.elem(a[1])
        if e is not None and R.elem(a[0]) is TAU:
            errs.append((a[0], a[1]))
    if errs:
        taylor(rep, R, errs[0][1], x, d, order, key)
    else:
        rep.unk(f"model@{key}", "plotted errors not recognised", R.loc)
    lines(rep, R, key, {"--": order + 1})
    fitted(rep, R, key, errs)
    got, sure = printed(R)
    # tangency
    if order == 1:
        v = method(PROBLEM, "riemannian_gradient", x)
    else:
        v = method(PROBLEM, "riemannian_hessian", x, d)
    r = Arith("sub", v, method(MANIFOLD, "to_tangent_space", x, v))
    decide(rep, R, f"tangency@{key}", got, sure, lambda t: normal(R, t, x, r), f"|v - to_tangent_space(x, v)| with v = {show(v, 4)}")
    missing(rep, R, key)
    if order == 2:
        decide(rep, R, f"linearity@{key}", got, sure, lambda t: linear(R, t, x), "|H[a u + b v] - a H[u] - b H[v]| for independent tangent vectors")
        decide(rep, R, f"symmetry@{key}", got, sure, lambda t: symmetric(R, t, x), "<u, H[v]> - <H[u], v> for independent tangent vectors")


def missing(rep, R, key):
    """A manifold without to_tangent_space gets no tangency report but the check goes on."""
    bad = [s for s in R.sinks if s[0] not in ("RuntimeError", "ValueError")]
    rep.verdict(f"optional@{key}", None if bad else True, "no other exception leaves the check", R.loc)


def decide(rep, R, key, got, sure, match, what):
    vs = []
    for t, e in got:
        try:
            vs.append(match(t))
        except RecursionError:
            vs.append(None)
    if any(v is True for v in vs):
        rep.ok(key, "reports " + what, R.loc)
    elif sure and all(v is False for v in vs):
        rep.bad(key, f"no reported value is {what}; reported: " + "; ".join(show(t, 8)[:200] for t, _ in got)[:700], R.loc)
    else:
        rep.unk(key, "reported values not recognised", R.loc)


def norm_arg(t, x):
    """r, point for t = norm(point, r) or sqrt(<r, r>)."""
    if t.op == "mcall" and t.args[0] == "norm" and is_manifold_term(t.args[1]) and len(t.args[2]) == 2:
        return t.args[2]
    if t.op == "npcall" and t.args[0] == "sqrt" and t.args[1][0].op == "mcall" and t.args[1][0].args[0] == "inner_product":
        a = t.args[1][0].args[2]
        if len(a) == 3 and a[1] is a[2]:
            return a[0], a[1]
    return None


def resolved(t):
    """Values on the paths where nothing is missing."""
    return subst(t, {a: FALSE for a in raises_atoms(t)})


def normal(R, t, x, r):
    t = resolved(t)
    pr = norm_arg(t, x)
    if pr is None:
        return False if plain(t) else None
    if pr[0] is not x:
        return False
    return same_up_to_sign(R.alg, pr[1], r)


def draws(R, x):
    return {e.data["result"]: e.data["args"] for e in R.calls("random_tangent_vector") if is_manifold_term(e.data["callee"].args[0])}


def hess_calls(t):
    return sorted({s for s in subterms(t) if s.op == "mcall" and s.args[0] == "riemannian_hessian"}, key=lambda s: s.tid)


def linear(R, t, x):
    t = resolved(t)
    pr = norm_arg(t, x)
    if pr is None:
        return False if plain(t) else None
    if pr[0] is not x:
        return False
    arg = pr[1]
    ds = draws(R, x)
    best = False
    for hc in hess_calls(arg):
        if len(hc.args[2]) != 2 or hc.args[2][0] is not x:
            continue
        p = R.alg.poly(hc.args[2][1])
        parts = [(R.alg.split(m), k) for m, k in p.items()]
        if any(s is None for s, _ in parts):
            continue
        vecs = {s[1] for s, _ in parts}
        if len(vecs) < 2:
            continue
        want = hc
        for (ms, vec), k in parts:
            coeff = R.alg.term({ms: k})
            want = Arith("sub", want, Arith("mul", coeff, method(PROBLEM, "riemannian_hessian", x, vec)))
            if vec not in ds and vec is not D:
                best = None
            elif vec in ds and ds[vec][:1] != (x,):
                return False
        r = same_up_to_sign(R.alg, arg, want)
        if r is True:
            return True if best is False else None
        if r is None:
            best = None
    return best if plain(arg) else None


def symmetric(R, t, x):
    t = resolved(t)
    if t.op == "npcall" and t.args[0] == "abs":
        t = t.args[1][0]
    if not plain(t):
        return None
    ds = draws(R, x)
    hs = [hc for hc in hess_calls(t) if hc.args[2][0] is x]
    for a in hs:
        for b in hs:
            u, v = a.args[2][1], b.args[2][1]
            if u is v:
                continue
            want = Arith("sub", method(MANIFOLD, "inner_product", x, u, b), method(MANIFOLD, "inner_product", x, a, v))
            if same_up_to_sign(R.alg, t, want) is True:
                bad = [w for w in (u, v) if w in ds and ds[w][:1] != (x,)]
                return not bad
    return False


def fitted(rep, R, key, curves):
    """The drawn fit is the fitted line over its own window, back from logarithms."""
    if len(curves) < 1:
        return
    h = curves[0][0]
    got = [a for n, a, kw in R.hooks.plots if n == "loglog" and a and len(a) >= 2 and a[0].op == "select" and a[0].args[0] is h]
    if len(got) != 1:
        rep.unk(f"drawn fit@{key}", f"{len(got)} curves over a part of the steps", R.loc)
        return
    x, y = got[0][:2]
    if y.op == "npcall" and y.args[0] == "polyval":
        rep.bad(f"drawn fit@{key}", "the fit of the logarithms is drawn as if it was a fit of the errors", R.loc)
        return
    if y.op != "pow" or y.args[0].op != "const" or y.args[1].op != "npcall" or y.args[1].args[0] != "polyval" or len(y.args[1].args[1]) != 2:
        rep.unk(f"drawn fit@{key}", show(y, 4)[:200], R.loc)
        return
    q, lx = y.args[1].args[1]
    if float(y.args[0].args[0]) != 10:
        rep.bad(f"drawn fit@{key}", f"decimal logarithms are undone with base {y.args[0].args[0]}", R.loc)
        return
    if lx.op != "npcall" or lx.args[0] != "log10":
        rep.verdict(f"drawn fit@{key}", False if lx is x else None, "the fitted line is evaluated at the logarithms of the steps", R.loc)
        return
    if not polyfits(R, q):
        rep.unk(f"drawn fit@{key}", show(q, 4)[:200], R.loc)
        return
    z = lx.args[1][0]
    rep.verdict(f"drawn fit@{key}", True if z is x else False if z.op == "select" and z.args[0] is h or z is h else None, "10^(line at log10 of the steps of its window)", R.loc)


def lines(rep, R, key, want):
    """Slopes of the reference lines on doubly logarithmic axes."""
    import math
    for n, a, kw in R.hooks.plots:
        if n not in ("plot", "loglog") or not a or len(a) < 2:
            continue
        if any(z.op not in ("list", "tuple") or len(z.args) != 2 or any(q.op != "const" for q in z.args) for z in a[:2]):
            continue
        st = kw.get("linestyle")
        st = st.args[0] if st is not None and st.op == "const" else None
        lab = kw.get("label")
        lab = lab.args[0] if lab is not None and lab.op == "const" else None
        (x0, x1), (y0, y1) = ([float(q.args[0]) for q in z.args] for z in a[:2])
        w = want.get(st) if lab is None else None
        if lab is not None and lab.strip() and lab.strip()[-1].isdigit():
            w = int(lab.strip()[-1])
        if w is None:
            continue
        try:
            s = (math.log10(y1) - math.log10(y0)) / (math.log10(x1) - math.log10(x0))
        except (ValueError, ZeroDivisionError):
            rep.bad(f"reference@{key}", "reference line is not drawable on logarithmic axes", R.loc)
            continue
        rep.verdict(f"reference slope {w}@{key}", abs(s - w) < 1e-9, f"the reference line has slope {s:g}, the error of the model has order {w}", R.loc)


def retraction(rep, program, case):
    args, given = arguments(case)
    R = Run(program, "check_retraction", [MAN] + args, {}, given)
    key = f"check_retraction({case})"
    if not R.found:
        rep.unk(f"found@{key}", "function not found", MOD)
        return
    if not R.alive:
        rep.bad(f"returns@{key}", "raises", R.loc)
        return
    xd = where(R, case, MAN, rep, key)
    if xd is None:
        return
    x, d = xd
    step = Arith("mul", TAU, d)
    a, b = method(MAN, "exp", x, step), method(MAN, "retraction", x, step)
    plots = [(n, p) for n, p, kw in R.hooks.plots if n == "loglog" and p and len(p) >= 2]
    done = False
    for n, p in plots:
        R.grids = set()
        e = R.elem(p[1])
        if e is None or R.elem(p[0]) is not TAU:
            continue
        e = resolved(e)
        v1, _ = R.alg.equal(e, method(MAN, "dist", a, b))
        v2, _ = R.alg.equal(e, method(MAN, "dist", b, a))
        done = True
        if True in (v1, v2):
            rep.ok(f"error@{key}", "distance between exp(x, t d) and retraction(x, t d)", R.loc)
        elif v1 is False and v2 is False and plain(e):
            rep.bad(f"error@{key}", f"compared is {show(e, 9)[:300]}, not the distance between exp(x, t d) and retraction(x, t d)", R.loc)
        else:
            rep.unk(f"error@{key}", f"not recognised: {show(e, 8)[:300]}", R.loc)
        got = [t for t, _ in printed(R)[0]]
        fits = set()
        for t in got:
            fits |= polyfits(R, t)
        if case == "given":
            slope(rep, R, key, got, p)
        break
    if not done:
        rep.unk(f"error@{key}", "plotted errors not recognised", R.loc)
    lines(rep, R, key, {})
    fitted(rep, R, key, [(p[0], p[1]) for n, p in plots if R.elem(p[0]) is TAU])
    # refusals
    for n in ("exp", "retraction", "dist"):
        ev = [e for e in R.calls(n)]
        ok = any(s for s in R.sinks if s[0] == "RuntimeError")
        rep.verdict(f"{n} provided@{key}", True if ev and ok else None, "a missing operation is reported", R.loc)


def slope(rep, R, key, got, p):
    """The reported slope is the leading coefficient of the fitted line."""
    fits = [t for t in got if polyfits(R, t)]
    if len(fits) != 1:
        rep.unk(f"slope@{key}", f"{len(fits)} fitted values are reported", R.loc)
        return
    t = fits[0]
    if t.op == "select" and t.args[1].op == "const":
        rep.verdict(f"slope@{key}", t.args[1] is ZERO or t.args[1].args[0] == -2, f"coefficient {t.args[1].args[0]} of the fitted line (highest degree first)", R.loc)
        calls = polyfits(R, t)
        # log-log axes
        if len(calls) == 1:
            c = next(iter(calls))
            d = degree(c)
            rep.verdict(f"degree@{key}", None if d is None or d.op != "const" else d is ONE, "a line is fitted", R.loc)
            x, y = c.args[1][:2]
            sx = sy = None
            if x.op == "select":
                x, sx = x.args
            if y.op == "select":
                y, sy = y.args
            a, b = log10_of(R, x, p[0]), log10_of(R, y, p[1])
            rep.verdict(f"axes@{key}", False if False in (a, b) else True if a and b else None, "log10 of the errors over log10 of the steps", R.loc)
            rep.verdict(f"window@{key}", True if sx is sy else None, "both coordinates use the same window", R.loc)
    else:
        rep.unk(f"slope@{key}", show(t, 5)[:200], R.loc)
