"""C08: the trust-region subproblem solver returns a consistent step inside the region."""
import time

from .. import alg
from .. import opt_common as oc
from ..opt_common import *
from ..alg import Alg

RULE = (
    "The inner solver is executed symbolically with and without random starts. A relational induction pairs its loop variables with "
    "those of the Steihaug-Toint method (entry values and values after one iteration select the pairs; the back values are then "
    "proved equal from an arbitrary common state); the continuation condition, the returned step, its Hessian image, the stop reason "
    "and the iteration bound are compared on that common state. Differences are confirmed on the unrolled first iterations."
)
FLOOR = 30
LOC = "pymanopt.optimizers.trust_regions:TrustRegions._truncated_conjugate_gradient"
SOLVER = "_truncated_conjugate_gradient"
X, G, DELTA = sym("x"), sym("g"), sym("Delta")
E0 = sym("eta0")
ARRAYS = ("x", "g", "eta0")


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = Arith("add", r, t)
    return r


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = Arith("mul", r, t)
    return r


def div(a, b):
    return Arith("div", a, b)


def sub(a, b):
    return add(a, Neg(b))


def ip(u, v):
    return M("inner_product", X, u, v)


def sqrt(t):
    return mk("npcall", "sqrt", (t,), ())


def sq(t):
    return mul(t, t)


def Or3(*cs):
    r = cs[0]
    for c in cs[1:]:
        r = Or(r, c)
    return r


VARS = ("eta", "Heta", "r", "ePe", "ePd", "dPd", "model", "delta", "jlast")
DERIVED = ("zr", "z")


class Reference:
    """The Steihaug-Toint truncated conjugate gradient method."""

    def __init__(self, rand, stops):
        self.rand, self.stops = rand, stops
        if rand:
            H0 = hess_of(X, E0)
            r = add(G, H0)
            d = Neg(r)
            self.start = dict(eta=E0, Heta=H0, r=r, ePe=ip(E0, E0), ePd=ip(E0, d), dPd=ip(r, r), model=self.m(E0, H0), delta=d, jlast=ZERO)
        else:
            z = precon_of(X, G)
            self.start = dict(eta=ZERO, Heta=ZERO, r=G, ePe=ZERO, ePd=ZERO, dPd=ip(z, G), model=ZERO, delta=Neg(z), jlast=ZERO)
        self.start.update(self.derived(self.start))
        self.norm0 = sqrt(ip(self.start["r"], self.start["r"]))

    def derived(self, s):
        z = self.z(s["r"])
        return dict(z=z, zr=ip(z, s["r"]))

    def m(self, e, h):
        return add(ip(e, G), mul(const(0.5), ip(e, h)))

    def z(self, r):
        return r if self.rand else precon_of(X, r)

    def step(self, s, j):
        """Continuation condition, next state and result when stopping at iteration j."""
        st = self.stops
        Hd = hess_of(X, s["delta"])
        dHd = ip(s["delta"], Hd)
        zr = ip(self.z(s["r"]), s["r"])
        alpha = div(zr, dHd)
        ePe1 = Ite(Eq(dHd, ZERO), s["ePe"], add(s["ePe"], mul(const(2), alpha, s["ePd"]), mul(alpha, alpha, s["dPd"])))
        c1 = Or(Le(dHd, ZERO), Le(mul(DELTA, DELTA), ePe1))
        tau = div(add(Neg(s["ePd"]), sqrt(add(sq(s["ePd"]), mul(s["dPd"], sub(sq(DELTA), s["ePe"]))))), s["dPd"])
        eta1, Heta1 = add(s["eta"], mul(alpha, s["delta"])), add(s["Heta"], mul(alpha, Hd))
        m1 = self.m(eta1, Heta1)
        c2 = Le(s["model"], m1)
        r1 = add(s["r"], mul(alpha, Hd))
        n0t = mk("pow", self.norm0, sym("theta"))
        target = mul(self.norm0, mk("npcall", "min2", (n0t, sym("kappa")), ()))
        c3 = And(Le(sym("mininner"), j), Le(sqrt(ip(r1, r1)), target))
        z1 = self.z(r1)
        zr1 = ip(z1, r1)
        beta = div(zr1, zr)
        nxt = dict(
            eta=eta1, Heta=Heta1, r=r1, ePe=ePe1, ePd=mul(beta, add(s["ePd"], mul(alpha, s["dPd"]))),
            dPd=add(zr1, mul(beta, beta, s["dPd"])), model=m1, delta=add(Neg(z1), mul(beta, s["delta"])), jlast=j,
        )
        nxt.update(self.derived(nxt))
        pick = lambda a, b, c: Ite(c1, a, Ite(c2, b, c))
        res = dict(
            eta=pick(add(s["eta"], mul(tau, s["delta"])), s["eta"], eta1),
            Heta=pick(add(s["Heta"], mul(tau, Hd)), s["Heta"], Heta1),
            stop=pick(Ite(Le(dHd, ZERO), st[0], st[1]), st[5], Ite(Lt(sym("kappa"), n0t), st[2], st[3])),
            numit=j,
        )
        return And(Not(c1), And(Not(c2), Not(c3))), nxt, res

    def done(self, s):
        return dict(eta=s["eta"], Heta=s["Heta"], stop=self.stops[4], numit=s["jlast"])


STOPS = ("NEGATIVE_CURVATURE", "EXCEEDED_TR", "REACHED_TARGET_LINEAR", "REACHED_TARGET_SUPERLINEAR", "MAX_INNER_ITER", "MODEL_INCREASED")
OUT = ("eta", "Heta", "numit", "stop")
WHAT = {"eta": "step", "Heta": "hessian-of-step", "numit": "iterations", "stop": "reason"}
ZV = None


def clean(t):
    """Tangent vectors are fixed by projections; the zero vector is zero."""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op == "mcall" and t.args[1] is MANIFOLD and t.args[0] in ("to_tangent_space", "projection") and len(t.args[2]) == 2 and t.args[2][0] is X:
                r = go(t.args[2][1])
            elif t is M("zero_vector", X):
                r = ZERO
            elif not t.args or t.op in ("const", "sym"):
                r = t
            else:
                f = lambda a: go(a) if isinstance(a, Term) else tuple(f(x) for x in a) if isinstance(a, tuple) else a
                new = [f(a) for a in t.args]
                r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t.op, *new)
            memo[t] = r
        return r

    return go(t)


def literals(asm):
    """Conjunctions split into their parts."""
    out = []
    todo = list(asm)
    while todo:
        c = todo.pop(0)
        if c.op == "and":
            todo[:0] = list(c.args)
        elif c.op == "not" and c.args[0].op == "or":
            todo[:0] = [Not(x) for x in c.args[0].args]
        elif c.op == "not" and c.args[0].op == "not":
            todo.insert(0, c.args[0].args[0])
        elif c is not TRUE:
            out.append(c)
    return out


class Solver:
    def __init__(self, root, rand):
        P = program(root)
        hooks = OptHooks(P)
        hooks.assume[Truthy(sym("cfg.use_rand"))] = rand
        it, st = fresh_interp(P, hooks)
        kind0 = hooks.kind
        hooks.kind = lambda t: "array" if t.op == "sym" and t.args[0] in ARRAYS else kind0(t)
        it.au_stop = frozenset(["add", "mul", "neg", "div", "pow"])
        ref = instantiate(it, st, P, "TrustRegions", {})
        self.cls = st.heap[ref.addr].cls
        f, _ = self.cls.lookup(SOLVER)
        self.value = None
        self.why = None
        if f is None:
            self.why = "the inner solver is not a method " + SOLVER
            return
        kw = {"problem": PROBLEM, "x": X, "fgradx": G, "eta": E0 if rand else M("zero_vector", X), "Delta": DELTA}
        kw.update({n: sym(n) for n in ("theta", "kappa", "mininner", "maxinner")})
        n0 = len(it.events)
        try:
            v = it.call(it.getattr(ref, SOLVER, st, entry_node("tcg")), [], {k: Val(t) for k, t in kw.items()}, st, entry_node("tcg"))
        except Dead:
            self.why = "raises: %s" % ", ".join(sorted({str(s[0]) for s in it.sinks[0]}))
            return
        v = it.resolve(v, st)
        if not isinstance(v, Tup) or len(v.items) != 4:
            self.why = "does not return four values"
            return
        self.it, self.st = it, st
        self.value = [clean(it.term(x, st)) for x in v.items]
        self.phis = {t: {k: clean(i[k]) for k in ("entry", "back")} for t, i in it.phis.items()}
        self.stops = []
        for n in STOPS:
            c, _ = self.cls.lookup(n)
            self.stops.append(it.term(c, st) if c is not None else mk("unknown", n))
        loops = [e for e in it.events[n0:] if e.kind == "loop"]
        self.loops = loops
        names = ARRAYS + tuple("$" + v for v in ("eta", "Heta", "r", "delta"))
        self.alg = Alg(is_vec=lambda t: it.kindof(t) == "array" or t.op == "sym" and t.args[0] in names, linear={"riemannian_hessian"})


def check(rep, root, rand):
    lab = "TrustRegions[use_rand=%s]" % rand
    S = Solver(root, rand)
    if S.value is None:
        rep.unk(f"inner solver@{lab}", S.why, LOC)
        return
    ref = Reference(rand, S.stops)
    if len(S.loops) != 1:
        rep.unk(f"inner loop@{lab}", "%d loops" % len(S.loops), LOC)
        return
    rep.count("configurations")
    L = S.loops[0]
    lid = L.data["lid"]
    phis = {t: i for t, i in S.phis.items() if t.args[0] == lid}
    rep.count("loop variables", len(phis))
    idx = mk("idx", lid)
    more = mk("more", lid)
    # iteration bound
    itr = L.data["iter"]
    want = [mk(c, sym("maxinner")) if c == "int" else sym("maxinner") for c in ("int", "plain")]
    if itr is not None and isinstance(itr, Term) and itr.op == "range":
        top = itr.args[1]
        core = top.args[1][0] if top.op in ("npcall",) and top.args[0] in ("int", "floor") else top.args[0] if top.op == "int" else top
        ok = itr.args[0] is ZERO and itr.args[2] is ONE and core is sym("maxinner")
        rep.verdict(f"iteration-bound@{lab}", True if ok else False if modelled(itr) else None, "range " + show(itr, 5), LOC)
    else:
        rep.unk(f"iteration-bound@{lab}", "not a counted loop", LOC)
    header = list(L.data["header"].pc)
    back_pc = [(c, p) for c, p in L.data["back"].pc if (c, p) not in set(header)]
    cont = [clean(c if p else Not(c)) for c, p in back_pc if c is not more]
    # the unrolled method
    states = [ref.start]
    conts, results = [], []
    for n in range(3):
        c, nx, res = ref.step(states[n], const(n))
        conts.append(c)
        results.append(res)
        states.append(nx)
    limit = time.time() + 90

    def eq(a, b, asm=(), budget=600):
        if time.time() > limit:
            return None, "out of time"
        asm = literals(asm)
        known = {}
        for c in asm:
            if c.op == "not":
                known[c.args[0]] = FALSE
            else:
                known[c] = TRUE
            # d > 0 or d < 0: not zero
            y = c.args[0] if c.op == "not" and c.args[0].op == "le" else c if c.op == "lt" else None
            if y is not None and ZERO in y.args:
                o = y.args[0] if y.args[1] is ZERO else y.args[1]
                known[Eq(o, ZERO)] = known[Eq(ZERO, o)] = FALSE
        for _ in range(2):
            a, b = subst(a, known), subst(b, known)
        old = alg.DEADLINE[0]
        alg.DEADLINE[0] = min(old, time.time() + 5, limit)
        try:
            return S.alg.equal(a, b, asm, budget=budget)
        except (OverflowError, RecursionError):
            return None, "too large"
        finally:
            alg.DEADLINE[0] = old

    peel = Peel(_R(S, phis), 0)
    over = mk("unknown", "unrolling")
    found = []

    def at(t, n):
        try:
            return clean(peel.at(t, {lid: n}))
        except (OverflowError, RecursionError):
            return over

    # pair loop variables with those of the method
    pairs = {}
    for t, i in phis.items():
        if i["entry"] is UNDEF:
            continue
        cand = [v for v in VARS + DERIVED if eq(i["entry"], ref.start[v])[0] is True]
        if len(cand) > 1:
            cand = [v for v in cand if (i["back"] is idx if v == "jlast" else eq(at(i["back"], 0), states[1][v], [conts[0]])[0] is True)]
        if cand:
            pairs[t] = cand[0]
    common = {v: sym("$" + v) for v in VARS}
    common.update(ref.derived(common))
    sub_ = {t: common[v] for t, v in pairs.items()}
    sub_[idx] = sym("$j")
    cont_ref, nxt, res = ref.step(common, sym("$j"))
    ab = lambda t: subst(t, sub_)
    proved = set()
    for t, v in pairs.items():
        r, w = eq(ab(phis[t]["back"]), nxt[v], [cont_ref], 2500)
        if r is True:
            proved.add(t)
    good = set(sub_) == proved | {idx}
    free = lambda t: [s for s in subterms(t) if s in phis]
    cc = TRUE
    for c in cont:
        cc = And(cc, c)

    def unrolled(f, ref_f, asm_f):
        """First iteration at which the values differ."""
        for n in range(1 if found else 2):
            asm = conts[:n] + asm_f(n)
            try:
                a, b = f(n), ref_f(n)
                v, w = eq(a, b, asm, 1200)
            except (OverflowError, RecursionError):
                continue
            if v is False and modelled(w[1], w[2]) and decidable(w[1], w[2]):
                found.append(n)
                return f"iteration {n + 1}: " + witness(w)
        return None

    def judge(key, code, want, asm, code_n, want_n, asm_n):
        if good:
            r, w = eq(ab(code), want, asm, 2500)
            if r is True:
                rep.ok(key, "equal on an arbitrary common state", LOC)
                return
        d = unrolled(code_n, want_n, asm_n)
        if d:
            rep.bad(key, d, LOC)
        else:
            rep.unk(key, "no proof, no difference in the first iterations", LOC)

    # every variable of the method: its own obligation
    for v in VARS:
        ts = [t for t in pairs if pairs[t] == v]
        if ts and all(t in proved for t in ts):
            rep.ok(f"recurrence.{v}@{lab}", "equal on an arbitrary common state", LOC)
        elif ts:
            t = ts[0]
            d = unrolled(lambda n: at(phis[t]["back"], n), lambda n: states[n + 1][v], lambda n: [conts[n]])
            if d:
                rep.bad(f"recurrence.{v}@{lab}", d, LOC)
            else:
                rep.unk(f"recurrence.{v}@{lab}", "not inductive", LOC)
        # variables without a counterpart show in the results below
    m = lambda t: t
    judge(f"continuation@{lab}", as_bool(cc), as_bool(cont_ref), [], lambda n: as_bool(at(cc, n)), lambda n: as_bool(conts[n]), lambda n: [])
    done = ref.done(common)
    for name, val in zip(OUT, S.value):
        stopped = subst(val, {more: TRUE})
        ended = subst(val, {more: FALSE})
        judge(f"{WHAT[name]}.stopped@{lab}", stopped, res[name], [Not(cont_ref)], lambda n: at(stopped, n), lambda n: results[n][name], lambda n: [Not(conts[n])])
        judge(f"{WHAT[name]}.iteration-limit@{lab}", ended, done[name], [], lambda n: at(ended, n), lambda n: ref.done(states[n])[name] if name != "numit" else const(max(n - 1, 0)), lambda n: [])


class _R:
    def __init__(self, S, phis):
        self.phis, self.it = S.phis, S.it


def run(rep, tier):
    for rand in (False, True):
        check(rep, oc.ROOT, rand)
