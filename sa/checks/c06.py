"""C06: conjugate gradient directions follow the rule and restart strategy."""
from ..opt_common import *

RULE = (
    "The direction and slope handed to the line search are compared, by induction over iterations (entry and back values of the "
    "loop variables), with the documented recurrence of each rule evaluated in the tangent space of the new point, including "
    "Powell's restart and the reset of ascent directions."
)
FLOOR = 20


def cfg(n):
    return sym("cfg." + n)


def ip(p, u, v):
    return M("inner_product", p, u, v)


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = Arith("add", r, t)
    return r


def mul(a, b):
    return Arith("mul", a, b)


def div(a, b):
    return Arith("div", a, b)


def sub(a, b):
    return add(a, Neg(b))


def max2(a, b):
    return mk("npcall", "max2", (a, b), ())


def min2(a, b):
    return mk("npcall", "min2", (a, b), ())


def beta(rule, p0, p1, d):
    g0, g1 = grad_of(p0), grad_of(p1)
    P0, P1 = precon_of(p0, g0), precon_of(p1, g1)
    Tg, Td, TP = M("transport", p0, p1, g0), M("transport", p0, p1, d), M("transport", p0, p1, P0)
    diff = sub(g1, Tg)
    if rule == "FletcherReeves":
        return div(ip(p1, g1, P1), ip(p0, g0, P0))
    if rule == "PolakRibiere":
        return max2(ZERO, div(ip(p1, P1, diff), ip(p0, g0, P0)))
    if rule == "HestenesStiefel":
        return max2(ZERO, div(ip(p1, P1, diff), ip(p1, diff, Td)))
    if rule == "HagerZhang":
        den = ip(p1, diff, Td)
        num = sub(ip(p1, diff, P1), div(mul(mul(const(2), ip(p1, diff, sub(P1, TP))), ip(p1, Td, g1)), den))
        eta = div(const(-1), mul(norm_of(p1, Td), min2(const(0.01), norm_of(p0, g0))))
        return max2(div(num, den), eta)
    if rule == "LiuStorey":
        den = Neg(ip(p1, Tg, Td))
        return max2(ZERO, min2(div(ip(p1, P1, diff), den), div(ip(p1, g1, P1), den)))
    return None


def strip_raises(t):
    """Numeric division does not raise: keep the value of the try body."""
    return subst(t, {s: FALSE for s in subterms(t) if s.op == "raises"})


def run(rep, tier):
    for R in runs(["ConjugateGradient"]):
        rule = next((b for b in BETAS if b in R.label), "HestenesStiefel")
        loc = "pymanopt.optimizers.conjugate_gradient:ConjugateGradient.run"
        ev = [e for e in R.run_events if e.kind == "call" and e.data["callee"].op == "attr" and e.data["callee"].args[1] == "search" and len(e.data["args"]) >= 6]
        if len(ev) != 1:
            if "default line searcher" not in R.label:
                rep.unk(f"line search call@{R.label}", f"{len(ev)} calls", loc)
            continue
        rep.count("configurations")
        e = ev[0]
        p0, d, f0, df0 = e.data["args"][2:6]
        p1 = Select(e.data["result"], ONE)
        m = R.main_loop()
        if m is None:
            rep.unk(f"main loop@{R.label}", "", loc)
            continue
        lid = m.data["lid"]
        entry = {f: i["entry"] for f, i in R.phis.items() if f.args[0] == lid}
        back = {f: i["back"] for f, i in R.phis.items() if f.args[0] == lid}
        # first direction
        x0 = subst(p0, entry)
        g0 = grad_of(x0)
        P0 = precon_of(x0, g0)
        v, w = decide_equal(R, strip_raises(subst(d, entry)), Neg(P0))
        rep.verdict(f"first-direction@{R.label}", v, w, e.loc)
        v, w = decide_equal(R, strip_raises(subst(df0, entry)), Neg(ip(x0, g0, P0)))
        rep.verdict(f"first-slope@{R.label}", v, w, e.loc)
        v, w = decide_equal(R, f0, cost_of(p0))
        rep.verdict(f"cost-given-to-line-search@{R.label}", v, w, e.loc)
        # next direction
        v, w = decide_equal(R, subst(p0, back), p1)
        rep.verdict(f"next-point@{R.label}", v, w, e.loc)
        S0, S1, SD = sym("$p0"), sym("$p1"), sym("$dir")
        exp = expected(rule, p0, p1, d)
        for what, got, want in (("direction", subst(d, back), exp[0]), ("slope", subst(df0, back), exp[1])):
            got = strip_raises(got)
            key = f"{what} {rule}@{R.label}"
            v, w = abstracted(R, got, want, p0, p1, d)
            if v is not True:
                v, w = refute(R, got, want, p0, p1, d, m)
            rep.verdict(key, v, w, e.loc)


def expected(rule, p0, p1, d):
    g0, g1 = grad_of(p0), grad_of(p1)
    P1 = precon_of(p1, g1)
    Tg = M("transport", p0, p1, g0)
    b = beta(rule, p0, p1, d)
    orth = div(ip(p1, Tg, P1), ip(p1, g1, P1))
    raw = Ite(Le(cfg("orth_value"), mk("npcall", "abs", (orth,), ())), Neg(P1), add(Neg(P1), mul(b, M("transport", p0, p1, d))))
    sl = ip(p1, g1, raw)
    asc = Le(ZERO, sl)
    return Ite(asc, Neg(P1), raw), Ite(asc, Neg(ip(p1, g1, P1)), sl)


def abstracted(R, got, want, p0, p1, d):
    """Equal with direction and points replaced by symbols (sound: same term)."""
    m = {d: sym("$dir")}
    m1 = {p1: sym("$p1")}
    m0 = {p0: sym("$p0")}

    def ab(t):
        for k in (m, m1, m0):
            t = subst(t, k)
        return t

    from ..alg import Alg
    names = ("$dir", "$p0", "$p1")
    A = Alg(is_vec=lambda t: R.it.kindof(t) == "array" or t.op == "sym" and t.args[0] in names)
    g, w_ = ab(got), ab(want)
    v, w = A.equal(g, w_, budget=3000)
    if v is True:
        return True, "equal normal forms"
    inv = invariants_of(R)
    if inv:
        g2, w2 = got, want
        for _ in range(3):
            g2, w2 = subst(g2, inv), subst(w2, inv)
        v2, _ = A.equal(ab(g2), ab(w2), budget=3000)
        if v2 is True:
            return True, "equal normal forms modulo loop invariants"
    return (None if v is None else False), w


def refute(R, got, want, p0, p1, d, m):
    """Compare after a concrete number of iterations, with the direction and
    points of that iteration abstracted where they are identical terms."""
    lid = m.data["lid"]
    why = "no proof, no refutation"
    for n in (0, 1):
        P = Peel(R, 0)
        env = {L: (n if L == lid else 0) for L in {x.args[0] for x in R.phis}}
        try:
            at = lambda t: P.at(t, env)
            a, b = strip_raises(at(got)), strip_raises(at(want))
            q0, q1, dd = at(p0), at(p1), at(d)
            if n == 1:
                # the previous direction is an arbitrary vector by now; its
                # slope decides whether it was kept
                ms = [{dd: sym("$dir")}, {q1: sym("$p1")}, {q0: sym("$p0")}]
            else:
                ms = [{q1: sym("$p1")}]
            for k in ms:
                a, b = subst(a, k), subst(b, k)
            from ..alg import Alg
            A = Alg(is_vec=lambda t: R.it.kindof(t) == "array" or t.op == "sym" and t.args[0] in ("$dir", "$p0", "$p1"))
            v, w = A.equal(a, b, budget=3000)
        except (OverflowError, RecursionError):
            continue
        if v is False and modelled(w[1], w[2]) and decidable(w[1], w[2]):
            return False, f"iteration {n + 1}: " + witness(w)
        why = str(w)[:200]
    return None, why
