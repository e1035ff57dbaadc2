"""C02: one consistent log entry per iteration exactly when logging is enabled."""
from ..opt_common import *

RULE = (
    "The log lists are followed as value-graph terms through Optimizer.run: with logging enabled every list "
    "starts empty and its length equals the reported number of iterations at exit (inductive length invariant), and "
    "the appended iteration number, point, cost and gradient norm belong together; the head of the log states the limits and parameters this run uses; with logging disabled nothing is recorded."
)
FLOOR = 60


def dict_items(t):
    if t is None or t.op != "dict":
        return None
    return {a.args[0].args[0]: a.args[1] for a in t.args if a.op == "tuple" and a.args[0].op == "const"}


def last(t):
    """The last appended element of a list term."""
    if t.op == "append":
        return t.args[1]
    if t.op == "ite":
        a, b = last(t.args[1]), last(t.args[2])
        return None if a is None or b is None else Ite(t.args[0], a, b)
    if t.op == "list" and t.args:
        return t.args[-1]
    return None


def length(t):
    if t.op == "append":
        return Arith("add", length(t.args[0]), ONE)
    if t.op == "ite":
        return Ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == "list":
        return const(len(t.args))
    return Len(t)


def list_phis(R, t):
    return [s for s in subterms(t) if s.op == "phi" and s in R.phis and islist(R, s)]


def islist(R, f, seen=None):
    seen = seen or set()
    if f in seen:
        return True
    seen.add(f)
    e = R.phis[f]["entry"]
    return e.op in ("list", "append") or (e.op == "phi" and e in R.phis and islist(R, e, seen))


def length_invariant(R, its):
    """Substitution Len(list φ) -> counter φ, when inductive."""
    m = {}
    counters = [f for f in R.phis if not islist(R, f) and f in set(subterms(its))]
    for f in R.phis:
        if not islist(R, f):
            continue
        for c in counters:
            if c.args[0] != f.args[0]:
                continue
            h = {Len(f): c}
            e = R.alg.equal(length(R.phis[f]["entry"]), R.phis[c]["entry"])[0]
            b = R.alg.equal(subst(length(R.phis[f]["back"]), h), R.phis[c]["back"])[0]
            if e is True and b is True:
                m[Len(f)] = c
                break
    return m


def stale_log(it, st, ref):
    st.obj_w(ref.addr).attrs["_log"] = Val(sym("stale._log"))


LIMITS = ["max_time", "max_iterations", "min_gradient_norm", "min_step_size", "max_cost_evaluations"]
PARAMETERS = {"ConjugateGradient": ["beta_rule", "orth_value"]}


def header(rep, R, log, loc):
    """The head of the log describes this run: optimizer, limits, parameters."""
    given = lambda t: subst(t, {Isnone(sym("cfg." + n)): FALSE for n in LIMITS})
    if "optimizer" in log:
        v = log["optimizer"]
        rep.verdict(f"head optimizer@{R.label}", True if v is const(R.opt) else False if v.op == "const" else None, show(v, 3), loc)
    lim = dict_items(log.get("stopping_criteria", NONE))
    for k in LIMITS:
        if lim is None or k not in lim:
            continue
        v = given(lim[k])
        if v is sym("cfg." + k):
            rep.ok(f"head {k}@{R.label}", "the limit of the run", loc)
        else:
            rep.verdict(f"head {k}@{R.label}", False if v.op in ("const", "sym") else None, f"the log states {show(v, 4)} for {k}", loc)
    par = dict_items(log.get("optimizer_parameters", NONE))
    if par is None:
        return
    for k in PARAMETERS.get(R.opt, []):
        if k in par:
            v = par[k]
            w = sym("cfg." + k)
            if k == "beta_rule":
                b = R.label.split("[")[1].split("]")[0]
                w = const(b if b in BETAS else "HestenesStiefel")
            rep.verdict(f"head {k}@{R.label}", True if v is w else False if v.op in ("const", "sym") else None, f"the log states {show(v, 4)} for {k}", loc)
    if "line_searcher" in par:
        used = {e.data["callee"].args[0] for e in R.run_events if e.kind == "call" and e.data["callee"].op == "attr" and e.data["callee"].args[1] == "search"}
        v = par["line_searcher"]
        if used == {v}:
            rep.ok(f"head line_searcher@{R.label}", "the line searcher that is used", loc)
        elif used:
            rep.verdict(f"head line_searcher@{R.label}", False if v.op in ("const", "sym") and v not in used else None, f"the log states {show(v, 4)}, {[show(u, 3) for u in used]} is used", loc)


def run(rep, tier):
    for R in runs(extra={"log_verbosity": 1}, tag=" log_verbosity=1"):
        rep.count("configurations")
        loc = f"{OPTS[R.opt]}:{R.opt}.run"
        log = dict_items(R.attr("log")) if R.attr("log") is not None else None
        ents = dict_items(log["iterations"]) if log and "iterations" in log else None
        its = R.attr("iterations")
        if ents is None:
            if log is not None and log.get("iterations") is NONE:
                rep.bad(f"entries-recorded@{R.label}", "log_verbosity=1 but no entry container is created", loc)
            else:
                rep.unk(f"entries-recorded@{R.label}", "log structure not recognised: " + show(R.attr("log") or NONE, 3), loc)
            continue
        want = ["iteration", "point", "cost"] + (["gradient_norm"] if R.opt in ("SteepestDescent", "ConjugateGradient", "TrustRegions") else [])
        missing = [k for k in want if k not in ents]
        for k in missing:
            rep.bad(f"entry-field {k}@{R.label}", f"log entries of {R.opt} have no {k}", loc)
        header(rep, R, log, loc)
        if contains(R.attr("log"), lambda s: s.op == "sym" and s.args[0].startswith("stale")):
            rep.bad(f"own-log@{R.label}", "the returned log is not created by this run", loc)
        inv = length_invariant(R, its)
        for k, L in ents.items():
            n = subst(length(L), inv)
            v, w = R.alg.equal(n, its)
            if v is True:
                rep.ok(f"one-entry-per-iteration {k}@{R.label}", "length invariant: len = iterations", loc)
                # every list starts the run empty
            else:
                v, w = peel_equal(R, L, its)
                rep.verdict(f"one-entry-per-iteration {k}@{R.label}", v, w, loc)
        # contents: at exit and at every back edge
        stages = [("exit", {k: ents[k] for k in want if k in ents})]
        backs = {}
        for k in want:
            if k in ents:
                ph = list_phis(R, ents[k])
                if len(ph) == 1:
                    backs[k] = R.phis[ph[0]]["back"]
        if len(backs) == len(want):
            stages.append(("next", backs))
        for sname, d in stages:
            v = {k: last(t) for k, t in d.items()}
            p = v.get("point")
            if p is None:
                rep.unk(f"entry-contents {sname}@{R.label}", "no appended point found", loc)
                continue
            if v.get("cost") is not None:
                rep.verdict(f"logged-cost-at-logged-point {sname}@{R.label}", *decide_equal(R, v["cost"], cost_of(p)), loc)
            if v.get("gradient_norm") is not None:
                rep.verdict(f"logged-gradient-norm-at-logged-point {sname}@{R.label}", *decide_equal(R, v["gradient_norm"], norm_of(p, grad_of(p))), loc)
            if v.get("iteration") is not None:
                n = subst(length(d["iteration"]), inv)
                if R.alg.equal(v["iteration"], n)[0] is True:
                    rep.ok(f"logged-iteration-number {sname}@{R.label}", "equals the position of the entry", loc)
                else:
                    rep.verdict(f"logged-iteration-number {sname}@{R.label}", *peel_equal(R, d["iteration"], v["iteration"]), loc)
    for R in runs(extra={"log_verbosity": 0}, tag=" log_verbosity=0"):
        loc = f"{OPTS[R.opt]}:{R.opt}.run"
        log = dict_items(R.attr("log")) if R.attr("log") is not None else None
        if log is None:
            v = R.attr("log") is NONE
            rep.verdict(f"silent@{R.label}", True if v else None, "log " + show(R.attr("log") or NONE, 2), loc)
            continue
        t = log.get("iterations", NONE)
        d = dict_items(t)
        if t is NONE or d == {}:
            rep.ok(f"silent@{R.label}", "no entries", loc)
        elif d is not None and all(x.op == "list" and not x.args for x in d.values()):
            rep.ok(f"silent@{R.label}", "empty lists", loc)
        elif d is not None and any(contains(x, lambda s: s.op == "append") or (x.op == "list" and x.args) for x in d.values()):
            rep.bad(f"silent@{R.label}", "entries are recorded at log_verbosity=0", loc)
        else:
            rep.unk(f"silent@{R.label}", show(t, 3), loc)
    for R in runs(extra={"log_verbosity": 1}, tag=" stale log", after_init=stale_log):
        loc = f"{OPTS[R.opt]}:{R.opt}.run"
        log = R.attr("log")
        bad = log is not None and contains_phi(R, log, lambda s: s.op == "sym" and s.args[0].startswith("stale"))
        rep.verdict(f"own-log@{R.label}", None if log is None else not bad, "log of an earlier run reaches the result" if bad else "created by this run", loc)


def contains_phi(R, t, f):
    """As contains, looking through φ nodes."""
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        for s in subterms(t):
            if s in seen:
                continue
            seen.add(s)
            if f(s):
                return True
            if s.op == "phi" and s in R.phis:
                todo += [R.phis[s]["entry"], R.phis[s]["back"]]
    return False


def peel_equal(R, L, n):
    """Refute len(L) = n after a few concrete iterations."""
    main = R.main_loop()
    ml = main.data["lid"] if main is not None else None
    for k, inner in ((0, 1), (1, 1), (2, 1)):
        P = Peel(R, inner)
        env = {l: (k if l == ml else inner) for l in sorted({x.args[0] for x in R.phis})}
        try:
            a, b = length(P.at(L, env)), P.at(n, env)
        except (OverflowError, RecursionError):
            continue
        v, w = R.alg.equal(a, b, budget=300)
        if v is False and modelled(w[1], w[2]) and decidable(w[1], w[2]):
            return False, f"after {k} iterations: entries vs iteration number: " + witness(w)
    return None, "no proof, no refutation"
