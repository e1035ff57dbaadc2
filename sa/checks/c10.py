"""C10: particle swarm tracks personal and global bests of evaluated positions."""
from ..opt_common import *
from ..evals import Counted

RULE = (
    "ParticleSwarm.run is executed symbolically; positions, previous positions, velocities, personal bests and the global best are "
    "identified among the loop variables by their roles, and the value each of them has at the back edges of the iteration loop and "
    "of the loops over particles is compared, as case-split normal forms, with the update rules; the evaluation counter is compared "
    "with the sum over the call sites of the objective of path condition times trip count."
)
FLOOR = 20
LOC = "pymanopt.optimizers.particle_swarm:ParticleSwarm.run"
DIM = mk("attr", MANIFOLD, "dim")
NONEP = sym("@unchanged")
UNIFORM = {"random.uniform", "random.rand", "random.random", "random.random_sample", "random.sample", "random.ranf"}


def cfg(n):
    return sym("cfg." + n)


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = Arith("add", r, t)
    return r


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = Arith("mul", r, t)
    return r


class PSO(Counted):
    def __init__(self, root, given):
        def setup(it, st, hooks):
            hooks.assume[Isnone(sym("initial_point"))] = not given
            it.au_stop = frozenset(["add"])

        kw = {"initial_point": point_arg()} if given else {}
        r = run_optimizer(program(root), "ParticleSwarm", {}, kw, "ParticleSwarm", setup)
        self.given = given
        self.R = ORun("ParticleSwarm", f"ParticleSwarm[{'initial population' if given else 'random population'}]", r)
        self.inv = invariants_of(self.R)

    def rw(self, t):
        for _ in range(4):
            n = subst(t, self.inv)
            if n is t:
                return t
            t = n
        return t

    def entry(self, t):
        return self.rw(self.R.phis[t]["entry"])

    def back(self, t):
        b = self.rw(self.R.phis[t]["back"])
        m = {s: FALSE for s in subterms(b) if s.op == "more" and s.args[0] != t.args[0]}
        return subst(b, m) if m else b

    def loop(self, lid):
        return next((e for e in self.R.loops() if e.data["lid"] == lid), None)

    def inner(self, t):
        """The particle loop variable a main loop variable ends up in."""
        b = self.back(t)
        if b.op == "phi" and b in self.R.phis and b.args[0] != t.args[0]:
            return b
        return None


def equal(R, got, want, facts=()):
    v, w = R.alg.equal(got, want, list(facts))
    if v is False and not (modelled(w[1], w[2]) and decidable(w[1], w[2])):
        v = None
    return v, w


def verdict(rep, R, key, got, want, facts=()):
    v, w = equal(R, got, want, facts)
    ids = {s for s in list(subterms(got)) + list(subterms(want)) if s.op == "idx"}
    if v is None and ids:
        # the values for particle number 1
        one = {s: ONE for s in ids}
        ex = lambda t: expand_stores(subst(t, one))
        v, w = equal(R, ex(got), ex(want), [ex(f) for f in facts])
        if v is not False:
            v = None
    rep.verdict(key, v, witness(w) if v is not True else "equal case-split normal forms", LOC)
    return v


def update(t, base, idx):
    """ite tree over store(base, idx, p) / base -> (changed, value) or None."""
    if t.op == "ite":
        a, b = update(t.args[1], base, idx), update(t.args[2], base, idx)
        if a is None or b is None:
            return None
        return Ite(t.args[0], a[0], b[0]), Ite(t.args[0], a[1], b[1])
    if t is base:
        return ZERO, NONEP
    if t.op == "store" and t.args[0] is base and t.args[1] is idx:
        return ONE, t.args[2]
    return None


def unwrap(t):
    """list(x), copies"""
    return t


def check(rep, root, given):
    P = PSO(root, given)
    R = P.R
    lab = R.label
    L = R.main_loop()
    if L is None:
        rep.unk(f"iteration loop@{lab}", "not found", LOC)
        return
    rep.count("configurations")
    lid = L.data["lid"]
    main = [t for t in R.phis if t.args[0] == lid and t not in P.inv]
    # positions: a particle loop stores retraction(.., ..) of themselves
    X = None
    for t in main:
        u = P.inner(t)
        if u is not None and P.entry(u) is t:
            b = P.back(u)
            if b.op == "store" and b.args[0] is u and b.args[2].op == "mcall" and b.args[2].args[0] in ("retraction", "exp"):
                X = (t, u)
    if X is None:
        rep.unk(f"positions@{lab}", "position update not found", LOC)
        return
    X, XU = X
    new = P.back(XU).args[2]
    iu = mk("idx", XU.args[0])
    # velocities
    V = None
    for t in main:
        u = P.inner(t)
        if u is not None and P.entry(u) is t and any(s.op == "mcall" and s.args[0] in ("transport", "log") for s in subterms(P.back(u))) and P.back(u).op == "store" and P.back(u).args[0] is u:
            if R.it.kindof(P.back(u).args[2]) == "array" and u.args[0] != XU.args[0] or contains(new, lambda s: s is u):
                V = (t, u)
    if V is None:
        rep.unk(f"velocities@{lab}", "velocity update not found", LOC)
        return
    V, VU = V
    iv = mk("idx", VU.args[0])
    pop = P.length(X)
    if pop is None:
        rep.unk(f"population@{lab}", "size of the population", LOC)
        return
    # the particle loops visit every particle
    for what, u in (("velocities", VU), ("positions", XU)):
        n = P.trip(P.loop(u.args[0]))
        if n is None:
            rep.unk(f"every particle.{what}@{lab}", "trip count not found", LOC)
        else:
            v, w = equal(R, P.norm(n), P.norm(pop))
            rep.verdict(f"every particle.{what}@{lab}", v, f"{show(n)} of {show(pop)}", LOC)
    # position update
    b = P.back(XU)
    if b.args[1] is not iu:
        rep.unk(f"position update@{lab}", f"stored at {show(b.args[1])}", LOC)
    else:
        bb = [M("retraction", p, Select(VU, iu)) for p in (Select(XU, iu), Select(X, iu))]
        if new in bb:
            rep.ok(f"position update@{lab}", show(new), LOC)
        else:
            verdict(rep, R, f"position update@{lab}", new, bb[0])
    fnew = cost_of(new)
    # global best: the reported point
    p = R.attr("point")
    p = P.rw(p) if p is not None else None
    G = p if p is not None and p.op == "phi" and p in R.phis and p.args[0] == lid else None
    GU = P.inner(G) if G is not None else None
    # personal bests
    Ys = []
    for t in main:
        if t is X:
            continue
        u = P.inner(t)
        if u is None or P.entry(u) is not t:
            continue
        up = update(P.back(u), u, iu) if u.args[0] == XU.args[0] else None
        if up is not None and R.it.kindof(Select(u, iu)) == "array" or (up is not None and contains(up[1], lambda s: s.op == "mcall" and s.args[0] == "retraction") and not contains(up[1], lambda s: s.op == "mcall" and s.args[0] == "cost")):
            Ys.append((t, u, up))
    if len(Ys) != 1 or G is None or GU is None:
        lists = [X] + [t for t in main if P.back(t) is X]
        if p is not None and modelled(p) and given and not contains(p, lambda s: s.op == "phi"):
            rep.bad(f"bests@{lab}", f"the reported best {show(p)} never changes", LOC)
        elif p is not None and p.op == "select" and p.args[0] in lists and p.args[1].op == "const":
            rep.bad(f"bests@{lab}", f"the result is the current position of particle {show(p.args[1])}", LOC)
        else:
            rep.unk(f"bests@{lab}", f"{len(Ys)} personal bests, result {show(p) if p is not None else None}", LOC)
        return
    Y, YU, up = Ys[0]
    better = Lt(fnew, cost_of(Select(YU, iu)))
    fy, fbest = Select(YU, iu), GU
    cy, cb = cost_of(fy), cost_of(fbest)
    # personal cost lists that are loop variables of their own
    own = {}
    for t in main:
        if t in (X, Y, V):
            continue
        u = P.inner(t)
        if u is None or P.entry(u) is not t or u.args[0] != XU.args[0]:
            continue
        e0 = P.entry(t)
        if e0 is Map(cost_of(hole()), P.entry(Y)) and update(P.back(u), u, iu) is not None:
            own[t] = u
    facts = [Le(cb, cy)]
    paired = {}
    used = {s for t in list(R.phis) if t.args[0] in (XU.args[0],) for s in subterms(P.back(t))}
    for t, u in own.items():
        guard = [s for s in subterms(P.back(YU)) if s is u]
        if guard:
            # this list plays the costs of the personal bests
            got = update(P.back(u), u, iu)
            want_c = Ite(Eq(up[0], ONE), cost_of(up[1]), NONEP)
            v = verdict(rep, R, f"costs of personal bests@{lab}", got[1], pushcost(up[0], up[1]))
            paired[Select(u, iu)] = cy
    sub = lambda t: subst(t, paired) if paired else t
    if not paired:
        rep.ok(f"costs of personal bests@{lab}", "costs are those of the personal bests, by an inferred invariant", LOC)
    # scalar best cost as a loop variable of its own
    for t in main:
        u = P.inner(t)
        if u is not None and u is not GU and P.entry(u) is t and P.entry(t) is cost_of(P.entry(G)):
            v = verdict(rep, R, f"cost of the global best@{lab}", sub(P.back(u)), pushscalar(sub(P.back(GU)), GU, u))
            paired[u] = cb
    ch, val = sub(up[0]), sub(up[1])
    verdict(rep, R, f"personal best changes exactly for smaller cost@{lab}", ch, Ite(better, ONE, ZERO), facts)
    verdict(rep, R, f"personal best becomes the new position@{lab}", val, Ite(better, new, NONEP), facts)
    verdict(rep, R, f"global best@{lab}", sub(P.back(GU)), Ite(And(better, Lt(fnew, cb)), new, GU), facts)
    rep.verdict(f"global best enters the particle loop@{lab}", P.entry(GU) is G or None, show(P.entry(GU)), LOC)
    # initial values
    X0 = P.entry(X)
    rep.verdict(f"initial personal bests@{lab}", P.entry(Y) is X0 or (False if modelled(P.entry(Y)) else None), show(P.entry(Y)), LOC)
    v, w = initial_best(R, P.entry(G), X0)
    if given:
        rep.verdict(f"initial global best@{lab}", v, w, LOC)
    V0 = P.entry(V)
    if V0.op == "map":
        body, seq = V0.args
        body_ok = body.op == "fresh" and "random_tangent_vector" in str(body.args[0])
        arg = [a for a in body.args[2:] if isinstance(a, Term)] if body_ok else []
        rep.verdict(f"initial velocities@{lab}", (P.length(seq) is not None and equal(R, P.norm(P.length(seq)), P.norm(pop))[0]) if body_ok else None, show(V0), LOC)
    else:
        rep.unk(f"initial velocities@{lab}", show(V0), LOC)
    # previous positions
    prev = [t for t in main if t is not X and P.entry(t) is X0 and P.back(t) is X]
    # velocity rule
    b = P.back(VU)
    if b.args[1] is not iv:
        rep.unk(f"velocity@{lab}", f"stored at {show(b.args[1])}", LOC)
    else:
        velocity(rep, P, lab, b.args[2], VU, iv, X, XU, Y, G, prev, L, main, X0)
    # population size
    if given:
        if X0 is not sym("initial_point"):
            rep.unk(f"initial population@{lab}", show(X0), LOC)
        else:
            rep.ok(f"initial population@{lab}", show(X0), LOC)
    else:
        n = P.norm(pop)
        want = Ite(Isnone(cfg("population_size")), mk("npcall", "min2", (const(40), mul(const(10), DIM)), ()), cfg("population_size"))
        v, w = equal(R, n, want)
        good = X0.op == "map" and X0.args[0].op == "fresh" and "random_point" in str(X0.args[0].args[0])
        rep.verdict(f"initial population@{lab}", v if good else None, f"{show(n)} random positions", LOC)
    P.evaluations(rep, lab, L, P.norm(pop), LOC)


def pushcost(ch, val):
    """cost of the stored value, in the case tree of the values."""
    if val.op == "ite":
        return Ite(val.args[0], pushcost(ch, val.args[1]), pushcost(ch, val.args[2]))
    return val if val is NONEP else cost_of(val)


def pushscalar(t, old, u):
    if t.op == "ite":
        return Ite(t.args[0], pushscalar(t.args[1], old, u), pushscalar(t.args[2], old, u))
    return u if t is old else cost_of(t)


def initial_best(R, t, X0):
    if t.op == "select" and t.args[0] is X0:
        j = t.args[1]
        arg = None
        if j.op == "npcall" and j.args[0] == "argmin":
            arg = j.args[1][0]
        elif j.op == "mcall" and j.args[0] == "argmin":
            arg = j.args[1]
        elif j.op == "select" and j.args[1] is ZERO and j.args[0].op == "npcall" and j.args[0].args[0] == "argsort":
            arg = j.args[0].args[1][0]
        if arg is not None:
            if arg is Map(cost_of(hole()), X0):
                return True, "position of smallest cost"
            return None, f"argmin of {show(arg)}"
        if j.op in ("const", "npcall", "mcall") and modelled(j):
            return False, f"initial position number {show(j)}"
    return None, show(t)


def velocity(rep, P, lab, val, VU, iv, X, XU, Y, G, prev, L, main, X0):
    R = P.R
    rnd = sorted({s for s in subterms(val) if s.op == "random"}, key=lambda s: s.tid)
    bad = [s for s in rnd if not (s.args[0] in UNIFORM and (not s.args[2] or s.args[2] == (ZERO, ONE)) and not s.args[3])]
    it0 = R.attr("iterations")
    it0 = P.rw(it0) if it0 is not None else None
    maxit = Ite(Isnone(cfg("max_iterations")), mk("npcall", "max2", (const(500), mul(const(4), DIM)), ()), cfg("max_iterations"))
    if it0 is None:
        rep.unk(f"velocity@{lab}", "iteration count not found", LOC)
        return
    x, y, v = Select(X, iv), Select(Y, iv), Select(VU, iv)
    w = add(const(0.4), mul(const(0.5), add(ONE, Neg(Arith("div", it0, maxit)))))
    if len(prev) != 1:
        # transported from another place?
        src = {s.args[2][0] for s in subterms(val) if s.op == "mcall" and s.args[0] == "transport"}
        lists = {s.args[0] for s in src if s.op == "select" and s.args[1] is iv and s.args[0].op == "phi"}
        for l in lists:
            if l in R.phis and l.args[0] == X.args[0]:
                eb, e0 = P.back(l), P.entry(l)
                if e0 is X0 and eb is not X and modelled(eb):
                    vv, ww = decide_equal(R, Select(eb, ZERO), Select(X, ZERO))
                    if vv is False or eb is XU:
                        rep.bad(f"previous positions@{lab}", f"velocities are transported from {show(eb)}", LOC)
                        return
        if not lists and src and modelled(*src):
            rep.bad(f"previous positions@{lab}", f"velocities are transported from {[show(s) for s in src]}", LOC)
            return
        rep.unk(f"previous positions@{lab}", f"{len(prev)} candidates", LOC)
        return
    rep.ok(f"previous positions@{lab}", "hold the positions of the previous iteration", LOC)
    if bad:
        rep.bad(f"velocity@{lab}", f"random coefficient {show(bad[0])}", LOC)
        return
    tr = M("transport", Select(prev[0], iv), x, v)

    def want(a, b):
        return add(mul(w, tr), mul(a, cfg("nostalgia"), M("log", x, y)), mul(b, cfg("social"), M("log", x, G)))

    if len(rnd) == 2:
        r = [equal(R, val, want(*rnd)), equal(R, val, want(*rnd[::-1]))]
        k = next((q for q in r if q[0] is True), None) or next((q for q in r if q[0] is None), None) or r[0]
        rep.verdict(f"velocity@{lab}", k[0], "" if k[0] else witness(k[1]), LOC)
    else:
        # shared or missing random coefficients
        a, b = (rnd * 2)[:2] if rnd else (ONE, ONE)
        r = equal(R, val, want(a, b))
        rep.bad(f"velocity@{lab}", f"{len(rnd)} independent random coefficients instead of two", LOC) if modelled(val) else rep.unk(f"velocity@{lab}", "random coefficients", LOC)


def run(rep, tier):
    for given in (True, False):
        try:
            check(rep, rep.root, given)
        except (RecursionError, OverflowError) as e:
            rep.unk(f"ParticleSwarm[{given}]", repr(e), LOC)
