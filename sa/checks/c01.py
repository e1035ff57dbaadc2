"""C01: the result describes the returned point."""
from ..opt_common import *

RULE = (
    "Value-graph construction over Optimizer.run for every optimizer and configuration; "
    "obligation: term(result.cost) = objective(term(result.point)) and "
    "term(result.gradient_norm) = norm(point, riemannian_gradient(point)) or None, "
    "the reported time is the difference of clock readings after and before the iterations and the reported step size "
    "the one the last line search returned; proved by normal forms modulo inferred loop invariants."
)
FLOOR = 20


def run(rep, tier):
    for R in runs():
        rep.count("configurations")
        p = R.attr("point")
        if p is None:
            rep.unk(f"result@{R.label}", "no result object")
            continue
        loc = f"{OPTS[R.opt]}:{R.opt}.run"
        v, w = decide_equal(R, R.attr("cost"), cost_of(p))
        rep.verdict(f"cost-at-returned-point@{R.label}", v, w, loc)
        elapsed(rep, R, loc)
        step(rep, R, loc)
        g = R.attr("gradient_norm")
        if g is None or g is NONE:
            rep.ok(f"gradient-norm-at-returned-point@{R.label}", "not reported", loc)
            continue
        v, w = decide_equal(R, g, norm_of(p, grad_of(p)))
        rep.verdict(f"gradient-norm-at-returned-point@{R.label}", v, w, loc)


def elapsed(rep, R, loc):
    """The reported time runs from before the iterations to after them."""
    t, m = R.attr("time"), R.main_loop()
    key = f"time-of-the-run@{R.label}"
    if t is None or m is None:
        rep.unk(key, "no time or no main loop", loc)
        return
    where = R.it.fresh_loops
    inside = [n for n, ls in where.items() if m.data["lid"] in ls]
    clock = [s for s in subterms(t) if s.op == "fresh" and s.args[0] == "time"]
    for a in clock:
        for b in clock:
            if a is not b and R.alg.equal(t, Arith("add", a, Arith("mul", const(-1), b)))[0] is True:
                good = not where.get(a.args[1]) and not where.get(b.args[1]) and b.args[1] < a.args[1] and all(b.args[1] < n < a.args[1] for n in inside)
                rep.verdict(key, good, "clock after the iterations minus clock before them" if good else "the clock is not read before and after the iterations", loc)
                return
    rep.verdict(key, False if modelled(t) and decidable(t) else None, f"{show(t, 4)} is not a difference of clock readings", loc)


def step(rep, R, loc):
    """The reported step size is the last one a line search returned."""
    t = R.attr("step_size")
    key = f"step-size-of-the-last-step@{R.label}"
    taken = [e.data["result"] for e in R.run_events if e.kind == "call" and e.data["callee"].op == "attr" and e.data["callee"].args[1] == "search"]
    if t is None or t is NONE:
        rep.ok(key, "not reported", loc)
        return
    if not taken:
        return  # the search is inlined: other configurations decide
    sizes = [Select(r, ZERO) for r in taken]

    def accept(x):
        if any(x is q for q in sizes):
            return True
        if x.op == "phi" and x in R.phis:
            i = R.phis[x]
            return (i["entry"].op in ("const", "inf", "undef") or accept(i["entry"])) and accept(i["back"])
        return False
    if accept(t):
        rep.ok(key, "the first value of the last search, or a constant before the first", loc)
        return
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += list(flat_args(x))[1 if x.op == "ite" else 0:]
        if x in R.phis:
            todo += [R.phis[x]["entry"], R.phis[x]["back"]]
    known = all(x.op not in BADOPS or x.op == "undef" for x in seen)
    other = not any(q in seen for q in sizes) or any(t is Select(r, ONE) for r in taken)
    rep.verdict(key, False if known and other else None, f"{show(t, 4)} is reported", loc)
