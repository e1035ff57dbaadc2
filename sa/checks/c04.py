"""C04: a run stops exactly by one of its documented criteria."""
from ..opt_common import *

RULE = (
    "The condition under which the main loop is left is extracted from its control flow and compared (case split over "
    "its atoms) with the disjunction of the documented criteria over this iteration's counter, gradient norm, step size "
    "and evaluation count; the counter is proved to start at zero and increase by one; the reported reason names a "
    "criterion that holds on its path."
)
FLOOR = 80

CRITERIA = {
    "SteepestDescent": "TIGSC", "ConjugateGradient": "TIGSC", "TrustRegions": "TIGC",
    "NelderMead": "TIC", "ParticleSwarm": "TIC",
}
WORDS = {"T": ("max time",), "I": ("max iter",), "G": ("grad",), "S": ("step",), "C": ("cost eval",)}
NAMES = {"T": "time limit", "I": "iteration limit", "G": "gradient norm", "S": "step size", "C": "cost evaluation limit"}
LIMITS = ["max_time", "max_iterations", "min_gradient_norm", "min_step_size", "max_cost_evaluations"]


def cfg(n):
    return sym("cfg." + n)


def B(c):
    return Ite(c, ONE, ZERO)


def limits_given(it, st, hooks):
    for n in ("max_iterations", "max_cost_evaluations"):
        hooks.assume[Isnone(cfg(n))] = False


def nonempty(R, t):
    """Some for loop of the source always runs at least once (population)."""
    m = {}
    for e in R.loops():
        if e.data["is_for"]:
            m[mk("more", e.data["lid"])] = TRUE
    return m


def clean(R, t):
    """Resolve φs of inner loops that never change, given the loop continues."""
    for _ in range(3):
        m = {}
        for f in {s for s in subterms(t) if s.op == "phi" and s in R.phis}:
            info = R.phis[f]
            ev = next((e for e in R.loops() if e.data["lid"] == f.args[0]), None)
            if ev is None or not ev.data["is_for"] or ev is R.main_loop():
                continue
            asg = {}
            for c, pol in ev.data["back"].pc:
                asg[c] = pol
            b = under(info["back"], asg)
            if not contains(b, lambda s: s is f) and (b.op == "const"):
                if info["entry"].op in ("undef", "const") and (info["entry"] is b or info["entry"] is UNDEF):
                    m[f] = b
        if not m:
            break
        t = subst(t, m)
    return t


def under(t, asg):
    """Simplify with known boolean subterms (and their negated disjuncts)."""
    known = {}

    def learn(c, v):
        known[c] = TRUE if v else FALSE
        if c.op == "or" and not v or c.op == "and" and v:
            for a in c.args:
                learn(a, v)
        if c.op == "not":
            learn(c.args[0], not v)

    for c, v in asg.items():
        learn(c, v)
    return subst(t, known)


def exit_condition(R):
    """(condition to stop after an iteration, substitution to that view)."""
    m = R.main_loop()
    if m is None:
        return None
    hp = set(m.data["header"].pc)
    back = m.data["back"]
    if back is None:
        return None
    bk = dict(back.pc)
    conds = []
    sub = {}
    for b in m.data["breaks"]:
        lits = [(c, p) for c, p in b.pc if (c, p) not in hp]
        hit = [(c, p) for c, p in lits if bk.get(c) is (not p)]
        if len(hit) != 1:
            hit = lits
        conds.append(And(*[c if p else Not(c) for c, p in hit]))
    ex = m.data["exit"]
    if ex is not None:
        lits = [(c, p) for c, p in ex.pc if (c, p) not in hp]
        c = And(*[c if p else Not(c) for c, p in lits])
        sub = {f: i["back"] for f, i in R.phis.items() if f.args[0] == m.data["lid"]}
        first = subst(c, {f: i["entry"] for f, i in R.phis.items() if f.args[0] == m.data["lid"]})
        if conds:
            return None  # two kinds of exits: not modelled
        return subst(c, sub), sub, first
    if not conds:
        return None
    return Or(*conds), sub, FALSE


def times(R, t):
    start, now = [], []
    for s in subterms(t):
        if s.op == "fresh" and s.args[0] == "time":
            (now if R.it.fresh_loops.get(s.args[1]) else start).append(s)
    return start, now


def phis_of_main(R):
    lid = R.main_loop().data["lid"]
    return [f for f in R.phis if f.args[0] == lid]


def run(rep, tier):
    for R in runs_limits():
        rep.count("configurations")
        loc = f"{OPTS[R.opt]}:{R.opt}.run"
        one(rep, R, loc)


_CACHE = {}


def runs_limits():
    out = []
    for o, lab, ov, rk, su in configs():
        if lab.endswith("[default line searcher]"):
            continue  # same loop, search inlined
        def setup(it, st, hooks, su=su, o=o):
            if su:
                su(it, st, hooks)
            if o in ("NelderMead", "ParticleSwarm"):
                limits_given(it, st, hooks)
        try:
            out.append(ORun(o, lab, run_optimizer(program(__import__("sa.opt_common", fromlist=["ROOT"]).ROOT), o, ov, rk, lab, setup)))
        except Exception:
            if __import__("os").environ.get("SA_DEBUG"):
                raise
    return out


def bool_equal(R, a, b, asm):
    v, w = R.alg.equal(B(a), B(b), asm, budget=600)
    if v is False and not (modelled(w[1], w[2])):
        return None, "not modelled"
    return v, (witness(w) if v is False else w)


def reached(R, C, goal):
    """goal occurs in C or in what its loop variables are computed from."""
    seen, todo = set(), [C]
    while todo:
        for s in subterms(todo.pop()):
            if s is goal or s.op in ("unknown", "opaque"):
                return True
            if s.op == "phi" and s not in seen and s in R.phis:
                seen.add(s)
                todo += [R.phis[s]["entry"], R.phis[s]["back"]]
    return False


def one(rep, R, loc):
    x = exit_condition(R)
    if x is None and R.main_loop() is None and (R.attrs.get("iterations") or NONE).op == "const":
        rep.bad(f"exit@{R.label}", f"the run always ends after {R.attrs['iterations'].args[0]} iterations, whatever the limits", loc)
        return
    if x is None:
        rep.unk(f"exit@{R.label}", "main loop exits not recognised", loc)
        return
    C, sub, first = x
    A = {k: subst(v, sub) for k, v in R.attrs.items()}
    full = nonempty(R, C)
    C = clean(R, C)
    C = subst(C, full)
    big = {}
    for s in subterms(C):
        if s.op == "mcall" and s.args[0] == "norm" and s.args[1] is MANIFOLD:
            big[s] = sym("$norm%d" % len(big))
    inv = dict(invariants_of(R))
    inv.update(big)
    its = A["iterations"]
    counters = [f for f in phis_of_main(R) if R.alg.equal(Arith("add", f, ONE), its)[0] is True]
    if counters:
        f = counters[0]
        info = R.phis[f]
        e = R.alg.equal(info["entry"], ZERO)[0]
        b = R.alg.equal(info["back"], Arith("add", f, ONE))[0]
        rep.verdict(f"counter-starts-at-zero@{R.label}", e if e is True or info["entry"].op == "const" else None, show(info["entry"], 3), loc)
        rep.verdict(f"counter-increases-by-one@{R.label}", b if b is True or modelled(info["back"]) and decidable(info["back"]) else None, show(info["back"], 4), loc)
    else:
        v, w = None, "counter not recognised"
        for n in (0, 1, 2):
            ml = R.main_loop().data["lid"]
            P = Peel(R, 0)
            try:
                t = P.at(its, {L: (n if L == ml else 0) for L in {y.args[0] for y in R.phis}})
            except (OverflowError, RecursionError):
                break
            r, _ = R.alg.equal(t, const(n + 1))
            if r is False and modelled(t) and decidable(t):
                v, w = False, f"in iteration {n + 1} the reported number of iterations is {show(t, 4)}"
                break
        rep.verdict(f"counter-increases-by-one@{R.label}", v, w, loc)
    crit = CRITERIA[R.opt]
    start, now = times(R, C)
    spec = {}
    if start and now:
        spec["T"] = [Le(Arith("add", s, cfg("max_time")), n) for s in start[:2] for n in now[:2]]
        spec["T"] += [Lt(Arith("add", s, cfg("max_time")), n) for s in start[:2] for n in now[:2]]
    else:
        spec["T"] = [FALSE]
    spec["I"] = [Le(cfg("max_iterations"), its)]
    p = A["point"]
    pts = [p] + [f for f in phis_of_main(R)]
    nonneg = []
    gnorms = []
    for q in pts:
        g = norm_of(q, grad_of(q))
        if q is p or contains(C, lambda s: s is g) or A.get("gradient_norm") is g:
            gnorms.append(Lt(g, cfg("min_gradient_norm")))
    spec["G"] = gnorms
    steps = []
    lid = R.main_loop().data["lid"]
    for e in R.run_events:
        if e.kind == "call" and e.data["callee"].op == "attr" and e.data["callee"].args[1] == "search":
            s0 = Select(e.data["result"], ZERO)
            nonneg.append(Le(ZERO, s0))
            steps.append(Lt(s0, cfg("min_step_size")))
            for f in phis_of_main(R):
                b = R.phis[f]["back"]
                en = R.phis[f]["entry"]
                if b is s0:
                    if en.op == "const" and (en.args[0] != en.args[0] or en.args[0] == float("inf")) or en.op == "inf":
                        steps.append(Lt(f, cfg("min_step_size")))
                    elif en.op == "const":
                        rep.bad(f"step-size-before-first-step@{R.label}", f"the step size criterion starts with {en.args[0]} before any step was taken", loc)
    spec["S"] = steps or [FALSE]
    ce = A.get("cost_evaluations")
    spec["C"] = [Le(cfg("max_cost_evaluations"), ce)] if ce is not None and ce is not NONE else [FALSE]
    asm = [Le(ZERO, cfg("max_cost_evaluations")), Le(ZERO, cfg("max_iterations"))] + nonneg
    key = f"stops-iff-a-criterion-holds@{R.label}"
    Ci = C
    for _ in range(3):
        Ci = subst(Ci, inv)
    # without the cost limit where it is not counted
    ce_missing = R.opt in ("SteepestDescent", "ConjugateGradient", "TrustRegions")
    mand = [k for k in crit if not (k == "C" and ce_missing)]
    cands = [[]]
    for k in mand:
        opts = []
        for o in spec[k]:
            o2 = o
            if o2 not in opts:
                opts.append(o2)
        cands = [c + [o] for c in cands for o in opts]
    res = []
    for c in cands[:40]:
        D = Or(*[subst(q, full) for q in c])
        Di = D
        for _ in range(3):
            Di = subst(Di, inv)
        v, w = bool_equal(R, Ci, Di, asm)
        res.append((v, w))
        if v is True:
            break
    if any(v is True for v, _ in res):
        rep.ok(key, " or ".join(NAMES[k] for k in mand), loc)
        if ce_missing:
            rep.bad(f"cost-evaluation-limit@{R.opt}", "max_cost_evaluations never ends the run: evaluations are not counted", loc)
    else:
        # with the cost limit counted somehow
        absent = [q for k, q in (("T", "max_time"), ("I", "max_iterations"), ("C", "max_cost_evaluations"), ("G", "min_gradient_norm"), ("S", "min_step_size")) if k in mand and not reached(R, C, cfg(q))]
        if absent:
            rep.bad(key, f"{absent[0]} as given to the optimizer does not occur in the exit condition", loc)
        elif res and all(v is False for v, _ in res) and decidable(C) :
            if ce_missing and contains(C, lambda s: s is cfg("max_cost_evaluations")) and not bool_equal(R, under_no_limit(C), C, asm)[0]:
                rep.unk(key, "cost evaluations are counted in a way not modelled", loc)
            else:
                rep.bad(key, "the exit condition differs from every reading of the documented criteria, e.g. " + str(res[0][1]), loc)
        else:
            rep.unk(key, str([w for v, w in res if v is None][:1]), loc)
    if first is not FALSE:
        v = bool_equal(R, first, FALSE, [])[0]
        rep.verdict(f"first-iteration@{R.label}", True if v is True else None, show(first, 4), loc)
    # reason
    sc = subst(clean(R, A.get("stopping_criterion", NONE)), full)
    for _ in range(3):
        sc = subst(sc, inv)
    v, w = bool_equal(R, Not(Isnone(sc)), Ci, asm)
    rep.verdict(f"reason-given-iff-stopped@{R.label}", v if v is True or decidable(sc) else None, w, loc)
    any_spec = {k: Or(*[subst(q, full) for q in spec[k]]) for k in spec}
    for path, leaf in leaves(sc):
        if leaf is NONE or leaf.op in ("phi", "undef"):
            continue
        txt = text(leaf).lower()
        ks = [k for k in WORDS if any(w in txt for w in WORDS[k])]
        lk = f"reason-matches '{txt[:40].strip()}'@{R.label}"
        if len(ks) != 1:
            rep.unk(lk, "text not recognised: " + txt[:80], loc)
            continue
        bad = And(*[c if pol else Not(c) for c, pol in path], Not(any_spec[ks[0]]))
        for _ in range(3):
            bad = subst(bad, inv)
        if ks[0] == "C" and ce_missing:
            v, w = bool_equal(R, And(*[c if pol else Not(c) for c, pol in path]), FALSE, asm)
            rep.verdict(lk, True if v is True else None, "never given", loc)
            continue
        v, w = bool_equal(R, bad, FALSE, asm)
        rep.verdict(lk, v if v is True or decidable(bad) else None, f"reason '{txt[:50]}' given although {NAMES[ks[0]]} does not hold: {w}" if v is False else "criterion holds on the path", loc)


def under_no_limit(C):
    return subst(C, {cfg("max_cost_evaluations"): const(10 ** 18)})


def leaves(t, path=()):
    if t.op == "ite":
        return leaves(t.args[1], path + ((t.args[0], True),)) + leaves(t.args[2], path + ((t.args[0], False),))
    return [(path, t)]


def text(t):
    out = []
    for a in flat_args(t):
        if a.op == "const" and isinstance(a.args[0], str):
            out.append(a.args[0])
        elif a.op == "fstr":
            out.append(text(a))
    if t.op == "const":
        out.append(str(t.args[0]))
    return " ".join(out)
