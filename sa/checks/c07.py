"""C07: trust regions accept steps and change the radius by the ratio test."""
from .. import opt_common as oc
from ..opt_common import *

RULE = (
    "TrustRegions.run is executed symbolically with the inner solver opaque; the back value of the radius, point, cost, gradient and "
    "gradient norm at the iteration loop is compared, as a case-split normal form, with the ratio test (regularised ratio, model "
    "decrease, thresholds 1/4 and 3/4, cap, boundary reasons) and the arguments given to the inner solver with the state of the loop."
)
FLOOR = 18
LOC = "pymanopt.optimizers.trust_regions:TrustRegions.run"
SOLVER = "_truncated_conjugate_gradient"


def cfg(n):
    return sym("cfg." + n)


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = Arith("add", r, t)
    return r


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = Arith("mul", r, t)
    return r


def div(a, b):
    return Arith("div", a, b)


def sub(a, b):
    return add(a, Neg(b))


def max2(a, b):
    return mk("npcall", "max2", (a, b), ())


def min2(a, b):
    return mk("npcall", "min2", (a, b), ())


def ip(p, u, v):
    return M("inner_product", p, u, v)


TK = ("Delta_bar", "Delta0", "mininner", "maxinner")
PARAMS = ["self", "problem", "x", "fgradx", "eta", "Delta", "theta", "kappa", "mininner", "maxinner"]


class Solve:
    """One symbolic run with an opaque inner solver."""

    def __init__(self, root, rand, stop=None, given=True):
        self.calls = []
        self.rand = rand

        def hook(it, f, args):
            names = [a.arg for a in f.node.args.args]
            kwargs, st, node = it.hook_site
            b = {n: it.term(a, st) for n, a in zip(names[1:], args[1:])}
            b.update({k: it.term(v, st) for k, v in kwargs.items()})
            self.calls.append((b, list(st.pc)))
            out = [Val(it.fresh(n, f.node)) for n in ("solver.eta", "solver.Heta", "solver.numit")]
            s = Val(it.fresh("solver.stop", f.node)) if stop is None else it.lift(stop)
            return Tup(out + [s])

        def setup(it, st, hooks):
            hooks.assume[Isnone(sym("initial_point"))] = False
            for k in TK:
                hooks.assume[Isnone(sym("run." + k))] = False
            hooks.assume[Truthy(cfg("use_rand"))] = rand
            hooks.opaque_funcs[SOLVER] = hook

        kw = {"initial_point": point_arg()}
        if given:
            kw.update({k: Val(sym("run." + k)) for k in TK})
        r = run_optimizer(program(root), "TrustRegions", {}, kw, "TrustRegions", setup)
        self.R = ORun("TrustRegions", f"TrustRegions[use_rand={rand}{'' if given else ', default radii'}]", r)
        self.cls = r.st.heap[r.self_ref.addr].cls

    def const(self, name):
        v, _ = self.cls.lookup(name)
        return v

    def phis(self, lid, entry):
        return [t for t, i in self.R.phis.items() if t.args[0] == lid and i["entry"] is entry]


def spec(S, X, D):
    """Back values prescribed by the ratio test."""
    R = S.R
    fx, g = cost_of(X), grad_of(X)
    eta, Heta = S.eta, S.Heta
    if S.rand:
        ng = norm_of(X, g)
        Hg = hess_of(X, g)
        gHg = ip(X, g, Hg)
        tau = Ite(Le(gHg, ZERO), ONE, min2(div(mk("pow", ng, const(3)), mul(D, gHg)), ONE))
        c = Neg(div(mul(tau, D), ng))
        ec, Hc = mul(c, g), mul(c, Hg)
        m = lambda e, h: add(fx, ip(X, g, e), mul(const(0.5), ip(X, h, e)))
        better = Lt(m(ec, Hc), m(eta, Heta))
        eta, Heta = Ite(better, ec, eta), Ite(better, Hc, Heta)
    xp = M("retraction", X, eta)
    fp = cost_of(xp)
    reg = mul(max2(ONE, mk("npcall", "abs", (fx,), ())), mk("npcall", "spacing", (ONE,), ()), cfg("rho_regularization"))
    num = add(sub(fx, fp), reg)
    den = add(Neg(ip(X, g, eta)), Neg(mul(const(0.5), ip(X, eta, Heta))), reg)
    rho = div(num, den)
    return dict(eta=eta, Heta=Heta, xp=xp, fp=fp, num=num, den=den, rho=rho)


def radius(q, rho, D, D_bar, boundary):
    dec = Le(ZERO, q["den"])
    bad = Or(Lt(rho, const(0.25)), Not(dec), Truthy(mk("npcall", "isnan", (rho,), ())))
    good = And(Lt(const(0.75), rho), boundary)
    return Ite(bad, div(D, const(4)), Ite(good, min2(mul(const(2), D), D_bar), D))


def accept(q, rho):
    return And(Le(ZERO, q["den"]), Lt(cfg("rho_prime"), rho))


def raises_of(t):
    return {s for s in subterms(t) if s.op == "raises"}


def compare(rep, R, key, got, want, loc):
    """Equal in both cases of a raising division."""
    v, w = decide_equal(R, got, want)
    rep.verdict(key, v, w, loc)


def solver_values(R):
    out = {}
    for t, i in list(R.phis.items()):
        for s in list(subterms(i["back"])):
            if s.op == "fresh" and str(s.args[0]).startswith("solver."):
                out.setdefault(s.args[0], set()).add(s)
    return out


def check(rep, root, rand):
    S = Solve(root, rand)
    R = S.R
    lab = R.label
    L = R.main_loop()
    if L is None or not S.calls:
        rep.unk(f"iteration loop@{lab}", "iteration loop or inner solver call not found", LOC)
        return
    lid = L.data["lid"]
    rep.count("configurations")
    X = S.phis(lid, sym("initial_point"))
    D = S.phis(lid, sym("run.Delta0"))
    sv = solver_values(R)
    if len(X) != 1 or len(D) != 1 or any(len(sv.get("solver." + n, ())) != 1 for n in ("eta", "Heta")):
        rep.unk(f"state@{lab}", f"{len(X)} points, {len(D)} radii", LOC)
        return
    X, D = X[0], D[0]
    S.eta, S.Heta = (next(iter(sv["solver." + n])) for n in ("eta", "Heta"))
    S.stop = next(iter(sv["solver.stop"])) if len(sv.get("solver.stop", ())) == 1 else None
    q = spec(S, X, D)
    back = {t: i["back"] for t, i in R.phis.items() if t.args[0] == lid}
    entry = {t: i["entry"] for t, i in R.phis.items() if t.args[0] == lid}
    rs = raises_of(back[D]) | raises_of(back[X])
    if len(rs) > 1:
        rep.unk(f"ratio@{lab}", "several raising operations", LOC)
        return
    rho = q["rho"]
    for r in rs:
        rho = Ite(r, const(float("nan")), rho)
    if S.stop is None:
        rep.bad(f"radius@{lab}", "the radius does not depend on why the inner solver stopped", LOC)
    else:
        neg, exc = S.const("NEGATIVE_CURVATURE"), S.const("EXCEEDED_TR")
        boundary = None
        if neg is None or exc is None:
            rep.unk(f"radius@{lab}", "stop reasons not found", LOC)
        else:
            tm = lambda v: R.it.term(v, R.st)
            boundary = Or(Eq(S.stop, tm(neg)), Eq(S.stop, tm(exc)))
            compare(rep, R, f"radius@{lab}", back[D], radius(q, rho, D, sym("run.Delta_bar"), boundary), LOC)
    acc = accept(q, rho)
    compare(rep, R, f"point@{lab}", back[X], Ite(acc, q["xp"], X), LOC)
    # companions of the point, whichever loop variables hold them
    x0 = sym("initial_point")
    n = 0
    for t in back:
        for what, F in (("cost", cost_of), ("gradient", grad_of), ("gradient norm", lambda p: norm_of(p, grad_of(p)))):
            if entry[t] is F(x0):
                compare(rep, R, f"{what}@{lab}", back[t], Ite(acc, F(q["xp"]), F(X)), LOC)
                n += 1
    rep.count("loop variables", 2 + n)
    # state handed to the inner solver
    b = S.calls[-1][0]
    g = grad_of(X)
    for n, want in (("x", X), ("fgradx", g), ("Delta", D), ("theta", cfg("theta")), ("kappa", cfg("kappa")), ("mininner", sym("run.mininner")), ("maxinner", sym("run.maxinner"))):
        if n not in b:
            rep.unk(f"inner-solver.{n}@{lab}", "parameter not found", LOC)
            continue
        compare(rep, R, f"inner-solver.{n}@{lab}", b[n], want, LOC)
    if not rand and "eta" in b:
        compare(rep, R, f"inner-solver.eta@{lab}", b["eta"], M("zero_vector", X), LOC)
    if rand and "eta" in b:
        inside(rep, S, L, b["eta"], X, D, f"inner-solver.eta@{lab}")


def inside(rep, S, L, eta, X, D, key):
    """The random start is a tangent vector shrunk until it lies inside the region."""
    R = S.R
    pc = S.calls[-1][1]
    facts = [c if v else Not(c) for c, v in pc]
    cond = Lt(D, norm_of(X, eta))
    v, w = R.alg.equal(as_bool(cond), ZERO, facts, budget=500)
    if v is True:
        rep.ok(key, "inside the region when the inner solver starts", LOC)
        return
    if v is False and modelled(eta) and not scaled(R, eta, D):
        rep.bad(key, "the random start %s is not kept inside the region" % show(eta, 5), LOC)
    else:
        rep.unk(key, "not derivable from the conditions at the call", LOC)


def scaled(R, t, D, seen=None):
    """The radius enters the value other than through branch conditions."""
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    if t is D:
        return True
    if t.op == "ite":
        return scaled(R, t.args[1], D, seen) or scaled(R, t.args[2], D, seen)
    if t in R.phis:
        # variables of the iteration loop are the state itself
        if t.args[0] == D.args[0]:
            return False
        return scaled(R, R.phis[t]["entry"], D, seen) or scaled(R, R.phis[t]["back"], D, seen)
    return any(scaled(R, a, D, seen) for a in flat_args(t))


def defaults(rep, root):
    S = Solve(root, False, given=False)
    R = S.R
    lab = R.label
    if not S.calls:
        rep.unk(f"defaults@{lab}", "inner solver call not found", LOC)
        return
    b = S.calls[-1][0]
    L = R.main_loop()
    entry = {t: i["entry"] for t, i in R.phis.items() if L is not None and t.args[0] == L.data["lid"]}
    back = {t: i["back"] for t, i in R.phis.items() if L is not None and t.args[0] == L.data["lid"]}
    bar = None
    r = None
    D = b.get("Delta")
    d0 = subst(D, entry) if D is not None else None
    rs = {s for s in subterms(d0) if s.op == "raises"} if d0 is not None else ()
    typ = mk("attr", MANIFOLD, "typical_dist")
    dim = mk("attr", MANIFOLD, "dim")
    bar = typ
    for r in rs:
        bar = Ite(r, mk("npcall", "sqrt", (dim,), ()), typ)
    if len(rs) == 1:
        v, w = decide_equal(R, d0, div(bar, const(8)))
        rep.verdict(f"initial-radius@{lab}", v, w, LOC)
        if D in back:
            # the cap is the default as well
            S.eta = S.Heta = None
            sv = solver_values(R)
            X = S.phis(L.data["lid"], sym("initial_point"))
            if len(X) == 1 and all(len(sv.get("solver." + n, ())) == 1 for n in ("eta", "Heta", "stop")):
                S.eta, S.Heta, stop = (next(iter(sv["solver." + n])) for n in ("eta", "Heta", "stop"))
                q = spec(S, X[0], D)
                rr = (raises_of(back[D]) - rs) or set()
                rho = q["rho"]
                for x in rr:
                    rho = Ite(x, const(float("nan")), rho)
                tm = lambda v: R.it.term(v, R.st)
                bd = Or(*[Eq(stop, tm(S.const(n))) for n in ("NEGATIVE_CURVATURE", "EXCEEDED_TR")])
                compare(rep, R, f"radius-cap@{lab}", back[D], radius(q, rho, D, bar, bd), LOC)
    elif d0 is not None:
        rep.bad(f"initial-radius@{lab}", "no fallback when the manifold has no typical distance: %s" % show(d0, 5), LOC)
    if "maxinner" in b:
        v, w = decide_equal(R, b["maxinner"], dim)
        rep.verdict(f"maxinner@{lab}", v, w, LOC)
    if "mininner" in b:
        v, w = decide_equal(R, b["mininner"], ONE)
        rep.verdict(f"mininner@{lab}", v, w, LOC)


def run(rep, tier):
    for rand in (False, True):
        check(rep, oc.ROOT, rand)
    defaults(rep, oc.ROOT)
