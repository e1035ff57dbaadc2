"""Shared machinery of the optimizer checks: configurations, loop peeling,
invariant inference, verdicts."""
from .terms import *
from .values import *
from .alg import Alg
from .opt import *
from .program import Program

DEBUG = False


def given_point(hooks):
    hooks.assume[Isnone(sym("initial_point"))] = False


def _setup_given(it, st, hooks):
    given_point(hooks)


def assume(**kw):
    """Setup function fixing facts about cfg symbols."""

    def setup(it, st, hooks):
        for k, v in kw.items():
            if k == "point":
                hooks.assume[Isnone(sym("initial_point"))] = not v
            elif k == "line_searcher":
                hooks.assume[Isnone(sym("cfg.line_searcher"))] = not v
            elif k.endswith("_none"):
                hooks.assume[Isnone(sym("cfg." + k[:-5]))] = v
            else:
                hooks.assume[Truthy(sym("cfg." + k))] = v

    return setup


BETAS = ["FletcherReeves", "HagerZhang", "HestenesStiefel", "PolakRibiere", "LiuStorey"]


def point_arg():
    return Val(sym("initial_point"), frozenset(["initial_point"]))


def configs(which=None):
    """(optimizer, label, overrides, run_kwargs, setup)"""
    out = []

    def add(o, lab, ov=None, rk=None, su=None):
        if which is None or o in which:
            out.append((o, f"{o}[{lab}]", ov or {}, rk or {}, su))

    p = {"initial_point": point_arg()}
    add("SteepestDescent", "own line searcher", {}, p, assume(point=True, line_searcher=True))
    add("SteepestDescent", "default line searcher", {"line_searcher": None}, p, assume(point=True))
    add("SteepestDescent", "random start", {}, {}, assume(line_searcher=True))
    for b in BETAS:
        add("ConjugateGradient", b, {"beta_rule": b}, p, assume(point=True, line_searcher=True))
    add("ConjugateGradient", "default line searcher", {"beta_rule": "HestenesStiefel", "line_searcher": None}, p, assume(point=True))
    add("ConjugateGradient", "random start", {"beta_rule": "HestenesStiefel"}, {}, assume(line_searcher=True))
    tk = {"Delta_bar": Val(sym("run.Delta_bar")), "Delta0": Val(sym("run.Delta0")), "mininner": Val(sym("run.mininner")), "maxinner": Val(sym("run.maxinner"))}

    def tr(rand):
        def setup(it, st, hooks):
            hooks.assume[Isnone(sym("initial_point"))] = False
            for k in tk:
                hooks.assume[Isnone(sym("run." + k))] = False
            hooks.assume[Truthy(sym("cfg.use_rand"))] = rand
        return setup

    add("TrustRegions", "use_rand=False", {}, dict(p, **tk), tr(False))
    add("TrustRegions", "use_rand=True", {}, dict(p, **tk), tr(True))
    add("TrustRegions", "defaults", {"use_rand": False}, {}, None)
    def nm(point):
        def setup(it, st, hooks):
            hooks.assume[Isnone(sym("initial_point"))] = not point
            hooks.opaque_funcs["compute_centroid"] = lambda it, f, args: Val(it.fresh("centroid", f.node))
        return setup

    add("NelderMead", "initial simplex", {}, p, nm(True))
    add("NelderMead", "random simplex", {}, {}, nm(False))
    add("ParticleSwarm", "initial population", {}, p, assume(point=True))
    add("ParticleSwarm", "random population", {}, {}, None)
    return out


_PROG = {}


def program(root="/repo"):
    if root not in _PROG:
        _PROG[root] = Program(root).load_all()
    return _PROG[root]


_RUNS = {}


class ORun:
    """One analysed optimizer configuration."""

    def __init__(self, o, label, r):
        self.opt, self.label, self.r = o, label, r
        self.it, self.st, self.phis = r.it, r.st, r.phis
        self.attrs = {}
        self.events = r.events
        if isinstance(r.value, Ref) and r.st.heap[r.value.addr].kind == "inst":
            for k, v in r.st.heap[r.value.addr].attrs.items():
                self.attrs[k] = r.it.term(v, r.st)
        self.alg = Alg(is_vec=lambda t: r.it.kindof(t) == "array")
        self.run_events = r.events[r.init_events:]

    def attr(self, n):
        return self.attrs.get(n)

    def loops(self):
        return [e for e in self.events if e.kind == "loop"]

    def main_loop(self):
        """The loop that counts iterations (from the reported count)."""
        t = self.attrs.get("iterations")
        ids = set()
        if t is not None:
            for s in subterms(t):
                if s.op == "phi":
                    ids.add(s.args[0])
        for e in reversed(self.loops()):
            if e.data["lid"] in ids:
                return e
        top = [e for e in self.loops() if len(e.loops) == 0]
        return top[-1] if top else None


ROOT = "/repo"


def runs(which=None, root=None, extra=None, tag="", after_init=None):
    """extra: further constructor overrides; after_init: state edit before run."""
    out = []
    root = root or ROOT
    for o, lab, ov, rk, su in configs(which):
        lab = lab + tag
        k = (root, lab)
        if k not in _RUNS:
            try:
                r = run_optimizer(program(root), o, dict(ov, **(extra or {})), rk, lab, su, after_init=after_init)
                _RUNS[k] = ORun(o, lab, r)
            except Exception as e:  # analysis failure: obligation undetermined
                if __import__("os").environ.get("SA_DEBUG"):
                    raise
                _RUNS[k] = None
        if _RUNS[k] is not None:
            out.append(_RUNS[k])
    return out


BADOPS = {"unknown", "undef", "extname", "opaque"}


def modelled(*ts):
    """All subterms are understood by the model."""
    for t in ts:
        for s in subterms(t):
            if s.op in BADOPS:
                return False
    return True


def order_facts(ts):
    """S[argmin(S)] <= S[i] and S[argsort(S)[0]] <= S[i] for the S[i] seen."""
    cells = {}
    mins = []
    seen = set()
    for t in ts:
        for s in subterms(t):
            if s in seen:
                continue
            seen.add(s)
            if s.op == "select":
                cells.setdefault(s.args[0], set()).add(s.args[1])
                j = s.args[1]
                order = None
                if j.op == "npcall" and j.args[0] == "argmin":
                    order = j.args[1][0]
                elif j.op == "mcall" and j.args[0] == "argmin":
                    order = j.args[1]
                elif j.op == "select" and j.args[1] is ZERO and j.args[0].op == "npcall" and j.args[0].args[0] == "argsort":
                    order = j.args[0].args[1][0]
                if order is not None:
                    mins.append((s.args[0], j, order))
    out = []
    for X, j, S in mins:
        for i in cells.get(X, ()):
            if i is not j:
                f = Le(Select(S, j), Select(S, i))
                if not contains(f, lambda x: x.op in ("ite", "store")):
                    out.append(f)
    return out[:12]


def expand_stores(t):
    """select(store(S, i, v), j) -> v if j = i else select(S, j)."""
    memo = {}

    def sel(s, j):
        if s.op == "store":
            i, v = s.args[1], s.args[2]
            if i is j:
                return v
            r = sel(s.args[0], j)
            return Ite(mk("eq", mk("slot", i), mk("slot", j)), v, r)
        if s.op == "ite":
            return Ite(s.args[0], sel(s.args[1], j), sel(s.args[2], j))
        return Select(s, j)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = t
        if t.args and t.op not in ("const", "sym"):
            if t.op == "select" and t.args[0].op in ("store", "ite"):
                r = sel(go(t.args[0]), go(t.args[1]))
            elif t.op == "npcall" and t.args[0] == "argsort":
                # an uninterpreted order: its argument is not expanded
                r = t
            else:
                def ga(a):
                    if isinstance(a, Term):
                        return go(a)
                    if isinstance(a, tuple):
                        return tuple(ga(x) for x in a)
                    return a
                new = [ga(a) for a in t.args]
                if any(x is not y for x, y in zip(new, t.args)):
                    r = rebuild(t.op, *new)
                    if r.op == "select" and r.args[0].op in ("store", "ite"):
                        r = sel(r.args[0], r.args[1])
        memo[t] = r
        return r

    return go(t)


SAFE_NP = {"sqrt", "abs", "absolute", "fabs", "spacing", "isnan", "argmin", "log10", "array", "asarray", "uniform", "random"}
SAFE_M = {"argmin", "search"}


def decidable(*ts):
    """Normal forms are complete enough to refute (no symbolic stores)."""
    seen = set()

    def bad(t):
        if t in seen:
            return False
        seen.add(t)
        if t.op == "npcall" and t.args[0] == "argsort":
            return False
        if t.op in ("store", "append", "concat"):
            return True
        # functions with laws the normal forms do not know
        if t.op == "npcall" and t.args[0] not in SAFE_NP:
            return True
        if t.op == "mcall" and t.args[1] is not PROBLEM and t.args[1] is not MANIFOLD and t.args[0] not in SAFE_M and t.args[1].op != "sym":
            return True
        if t.op in ("min", "max", "sum") and len(t.args) == 1:
            return True
        return any(bad(a) for a in flat_args(t))

    return not any(bad(t) for t in ts)


# -- problem-level constructors ------------------------------------------------


def cost_of(p):
    return mk("mcall", "cost", PROBLEM, (p,), ())


def grad_of(p):
    return mk("mcall", "riemannian_gradient", PROBLEM, (p,), ())


def hess_of(p, v):
    return mk("mcall", "riemannian_hessian", PROBLEM, (p, v), ())


def precon_of(p, v):
    return mk("mcall", "preconditioner", PROBLEM, (p, v), ())


def M(name, *args):
    return mk("mcall", name, MANIFOLD, tuple(args), ())


def norm_of(p, v):
    return M("norm", p, v)


# -- peeling ---------------------------------------------------------------


class Peel:
    """Replace φ nodes by their value after a given number of iterations."""

    def __init__(self, run, inner=0):
        self.run = run
        self.inner = inner
        self.memo = {}
        self.limit = 20000
        self.lids = {x.args[0] for x in run.phis}

    def at(self, t, env):
        """env: dict loop id -> completed iterations."""
        key = (t, tuple(sorted(env.items())))
        r = self.memo.get(key)
        if r is None:
            self.limit -= 1
            if self.limit < 0:
                raise OverflowError
            self.memo[key] = mk("unknown", "peel-cycle")
            r = self._at(t, env)
            self.memo[key] = r
        return r

    def _at(self, t, env):
        if t.op == "phi":
            info = self.run.phis.get(t)
            if info is None:
                return mk("unknown", "phi")
            L = t.args[0]
            n = env.get(L, self.inner)
            if n == 0:
                e2 = {k: v for k, v in env.items() if k != L}
                return self.at(info["entry"], e2)
            e2 = dict(env)
            e2[L] = n - 1
            return self.at(info["back"], e2)
        if t.op == "fresh" and not isinstance(t.args[-1], tuple):
            loops = [L for L in self.run.it.fresh_loops.get(t.args[1], ()) if L in self.lids]
            tag = tuple((L, env.get(L, self.inner)) for L in loops)
            extra = tuple(self.at(a, env) if isinstance(a, Term) else a for a in t.args[2:])
            tag = (tag,) if any(n for _, n in tag) else ()
            return mk("fresh", t.args[0], t.args[1], *extra, *tag)
        if t.op == "idx":
            return const(env.get(t.args[0], self.inner))
        if t.op == "more":
            return mk("more", t.args[0], env.get(t.args[0], self.inner))
        if not t.args or t.op in ("const", "sym"):
            return t

        def go(a):
            if isinstance(a, Term):
                return self.at(a, env)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a

        new = [go(a) for a in t.args]
        # reading an unbound name raises: such a branch yields no value
        if t.op == "ite":
            if new[1] is UNDEF:
                return new[2]
            if new[2] is UNDEF:
                return new[1]
        elif t.op in STRICT and any(x is UNDEF for x in flat_args(mk("tuple", *new))):
            return UNDEF
        if all(x is y for x, y in zip(new, t.args)):
            return t
        return rebuild(t.op, *new)


STRICT = {"add", "mul", "div", "neg", "pow", "lt", "le", "eq", "mcall", "npcall", "not", "and", "or", "select", "store", "gather", "truthy"}


# -- invariants ------------------------------------------------------------


def infer_invariants(run):
    """Houdini over candidates φa = F(φb), F in {cost(·), map cost, gradient,
    norm of the gradient}.  Returns a substitution φa -> F(φb)."""
    phis = run.phis
    # congruent φs: optimistic partition refinement
    rep = {}
    for t in sorted(phis, key=lambda t: t.tid):
        rep[t] = t.args[0]
    first = {}
    for t in sorted(phis, key=lambda t: t.tid):
        first.setdefault(t.args[0], t)
    rep = {t: first[t.args[0]] for t in phis}
    for _ in range(len(phis) + 2):
        m = {t: r for t, r in rep.items() if r is not t}
        memo = {}
        groups = {}
        for t in sorted(phis, key=lambda t: t.tid):
            i = phis[t]
            k = (rep[t], subst(i["entry"], m, memo), subst(i["back"], m, memo))
            groups.setdefault(k, []).append(t)
        new = {t: g[0] for g in groups.values() for t in g}
        if new == rep:
            break
        rep = new
    ident = {t: r for t, r in rep.items() if r is not t}
    h = hole()
    forms = [lambda b: cost_of(b), lambda b: Map(cost_of(h), b), lambda b: grad_of(b), lambda b: norm_of(b, grad_of(b))]
    depth = {}
    for e in run.loops():
        depth[e.data["lid"]] = min(depth.get(e.data["lid"], 99), len(e.loops))
    order = sorted((t for t in phis if t not in ident), key=lambda t: (depth.get(t.args[0], 0), t.tid))
    excluded = set()

    def rewriter(m):
        memo = {}

        def rw(t):
            for _ in range(4):
                n = subst(t, m, memo)
                if n is t:
                    break
                t = n
            return t
        return rw

    for rnd in range(40):
        m = dict(ident)
        used = {}
        for a in order:
            ia = phis[a]
            if ia["entry"].op == "undef":
                continue
            rw = rewriter(m)
            for b in order:
                if b is a or b.args[0] != a.args[0] or phis[b]["entry"].op == "undef":
                    continue
                for i, F in enumerate(forms):
                    if (a, b, i) in excluded:
                        continue
                    if same(rw(ia["entry"]), rw(F(phis[b]["entry"]))) and a in acyclic({**{k: v for k, v in m.items() if k not in ident}, a: F(b)}):
                        m[a] = F(b)
                        used[a] = (b, i)
                        break
                if a in used:
                    break
        rw = rewriter(m)
        if DEBUG:
            print('round', rnd, [(show(a), show(b), i) for a, (b, i) in used.items()])
        bad = False
        for a, (b, i) in used.items():
            if not same(rw(phis[a]["back"]), rw(forms[i](phis[b]["back"]))):
                excluded.add((a, b, i))
                bad = True
        if not bad:
            return m
    return ident


def same(a, b, depth=40):
    """Identity modulo pushing maps/calls through conditionals."""
    return a is b or hoist(a) is hoist(b)


def hoist(t, memo=None):
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = go_(t)
        return r

    def go_(t):
        if t.op == "ite":
            return Ite(t.args[0], go(t.args[1]), go(t.args[2]))
        if t.op == "map" and t.args[1].op == "ite":
            c, x, y = t.args[1].args
            return Ite(c, go(Map(t.args[0], x)), go(Map(t.args[0], y)))
        if t.op == "mcall" and any(a.op == "ite" for a in t.args[2]):
            for k, a in enumerate(t.args[2]):
                if a.op == "ite":
                    u = t.args[2][:k] + (a.args[1],) + t.args[2][k + 1:]
                    v = t.args[2][:k] + (a.args[2],) + t.args[2][k + 1:]
                    return Ite(a.args[0], go(mk("mcall", t.args[0], t.args[1], u, t.args[3])), go(mk("mcall", t.args[0], t.args[1], v, t.args[3])))
        if t.op == "gather" and t.args[0].op == "ite":
            c, x, y = t.args[0].args
            return Ite(c, go(Gather(x, t.args[1])), go(Gather(y, t.args[1])))
        return t

    return go(t)


def acyclic(m):
    out = {}
    for a, f in m.items():
        seen = set()
        cur = f
        ok = True
        todo = [f]
        while todo:
            t = todo.pop()
            for s in subterms(t):
                if s is a:
                    ok = False
                if s in out and s not in seen:
                    seen.add(s)
                    todo.append(out[s])
            if not ok:
                break
        if ok:
            out[a] = f
    return out


# -- verdicts ----------------------------------------------------------------


def facts_of(e):
    """The branch conditions under which an event happens."""
    out = []
    for t, v in e.facts.items():
        out.append(t if v else Not(t))
    return out


def decide_equal(run, s, t, assume=(), invariants=None, peel=True, depth=2):
    """True / False (with a witness) / None.

    Proof: equal normal forms at the φ level, possibly modulo inferred loop
    invariants.  Refutation: the values after 0..depth completed iterations
    of every loop differ for terms the model fully understands.
    """
    v, w = run.alg.equal(s, t, assume)
    if v is True:
        return True, "equal normal forms"
    if invariants is None:
        invariants = invariants_of(run)
    if invariants:
        m = dict(invariants)
        s2, t2 = s, t
        for _ in range(4):
            s2, t2 = subst(s2, m), subst(t2, m)
        a2 = [subst(c, m) for c in assume]
        v2, w2 = run.alg.equal(s2, t2, a2)
        if v2 is True or same(s2, t2):
            return True, "equal normal forms modulo loop invariants"
    has_phi = any(x.op == "phi" for x in list(subterms(s)) + list(subterms(t)))
    if not has_phi:
        if v is False and modelled(w[1], w[2]) and decidable(w[1], w[2]):
            return False, witness(w)
        return None, str(w)[:200]
    if not peel:
        return None, "not inductive"
    lids = sorted({x.args[0] for x in run.phis})
    for n, inner in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1)):
        if n <= depth:
            P = Peel(run, inner)
            env = {}
            main = run.main_loop()
            ml = main.data["lid"] if main is not None else None
            for L in lids:
                env[L] = n if L == ml else inner
            try:
                a, b = P.at(s, env), P.at(t, env)
                if a is UNDEF and b is not UNDEF and n <= 1:
                    return False, f"after {n} iterations: value is unbound"
                a, b = expand_stores(a), expand_stores(b)
                asm = [c for c in (expand_stores(P.at(c, env)) for c in assume) if modelled(c)]
                v3, w3 = run.alg.equal(a, b, asm, budget=300, facts=order_facts([a, b]))
            except (OverflowError, RecursionError):
                continue
            if v3 is False and modelled(w3[1], w3[2]) and decidable(w3[1], w3[2]):
                return False, f"after {n} iterations: " + witness(w3)
            if v3 is False and modelled(a, b):
                from .onum import refute

                how = refute(a, b, asm)
                if how:
                    return False, f"after {n} iterations: {how}: " + witness(w3)
    return None, "no proof, no refutation"


def invariants_of(run):
    if not hasattr(run, "_inv"):
        try:
            run._inv = infer_invariants(run)
        except (RecursionError, OverflowError):
            run._inv = {}
    return run._inv


def witness(w):
    if isinstance(w, tuple) and len(w) == 3:
        asg, x, y = w
        c = ", ".join(("" if v else "not ") + show(a, 5) for a, v in list(asg.items())[:6])
        return (f"[{c}] " if c else "") + f"{show(x, 6)} vs {show(y, 6)}"[:900]
    return str(w)[:400]


def as_bool(c):
    return Ite(c, ONE, ZERO)


def never(R, cond, L=None, asm=(), fx=None, depth=2):
    """Is the condition impossible?  φ-level proof, else refutation on the
    values after a few iterations of loop L (given that they were made)."""
    inv = invariants_of(R)

    def prep(t):
        for _ in range(3):
            t = subst(t, inv)
        if fx:
            t = subst(t, fx)
        return hoist(t)

    v, w = R.alg.equal(as_bool(prep(cond)), ZERO, [prep(a) for a in asm], budget=500)
    if v is True:
        return True, ""
    if not any(x.op == "phi" for x in subterms(And(cond, *asm))):
        if v is False and modelled(cond) and decidable(cond):
            return False, witness(w)
        return None, w
    if L is None:
        return None, "not inductive"
    lid = L.data["lid"]
    hp = set(L.data["header"].pc)
    back = And(*[c if p else Not(c) for c, p in L.data["back"].pc if (c, p) not in hp])
    P = Peel(R, 0)
    for n in range(depth + 1):
        try:
            g = lambda t, k: hoist(subst(expand_stores(P.at(t, {lid: k})), fx or {}))
            a = [g(c, n) for c in asm] + [g(back, k) for k in range(n)]
            c = g(cond, n)
            v, w = R.alg.equal(as_bool(c), ZERO, [x for x in a], budget=400)
        except (OverflowError, RecursionError):
            continue
        if v is False and modelled(c, *a) and decidable(c, *a):
            return False, f"after {n} iterations: " + witness(w)
    return None, "no proof, no refutation"


def equal_in(R, s, t, L=None, asm=(), fx=None, depth=2):
    """Equality at a loop exit: φ-level proof, refutation by peeling."""
    inv = invariants_of(R)

    def prep(t):
        for _ in range(3):
            t = subst(t, inv)
        return hoist(subst(t, fx) if fx else t)

    v, w = R.alg.equal(prep(s), prep(t), [prep(a) for a in asm], budget=500)
    if v is True:
        return True, "equal normal forms"
    if not any(x.op == "phi" for x in list(subterms(s)) + list(subterms(t))):
        if v is False and modelled(s, t) and decidable(s, t):
            return False, witness(w)
        return None, w
    if L is None:
        return None, "not inductive"
    lid = L.data["lid"]
    hp = set(L.data["header"].pc)
    back = And(*[c if p else Not(c) for c, p in L.data["back"].pc if (c, p) not in hp])
    P = Peel(R, 0)
    for n in range(depth + 1):
        try:
            g = lambda t, k: hoist(subst(expand_stores(P.at(t, {lid: k})), fx or {}))
            a = [g(c, n) for c in asm] + [g(back, k) for k in range(n)]
            x, y = g(s, n), g(t, n)
            v, w = R.alg.equal(x, y, a, budget=400)
        except (OverflowError, RecursionError):
            continue
        if v is False and modelled(x, y, *a) and decidable(x, y, *a):
            return False, f"after {n} iterations: " + witness(w)
    return None, "no proof, no refutation"
