"""C09: Nelder-Mead keeps simplex and costs paired and follows the simplex rules."""
from ..opt_common import *
from ..evals import Counted

RULE = (
    "NelderMead.run is executed symbolically with the centroid opaque.  The value of the simplex at the back edge of the iteration "
    "loop is read as an action (replace the worst vertex by p / shrink / other) and compared, as case-split normal forms, with the "
    "rules of the method; vertices and costs are related by inferred invariants; the value of the evaluation counter is compared "
    "with the sum, over the call sites of the objective, of path condition times trip count."
)
FLOOR = 14
LOC = "pymanopt.optimizers.nelder_mead:NelderMead.run"
SHRINK = sym("@shrink")
OTHER = sym("@other")
DIM = mk("attr", MANIFOLD, "dim")


def cfg(n):
    return sym("cfg." + n)


class NM(Counted):
    def __init__(self, root, given):
        self.caps = []

        def setup(it, st, hooks):
            hooks.assume[Isnone(sym("initial_point"))] = not given
            it.au_stop = frozenset(["add"])

            def centroid(it, f, args):
                kw, s, node = it.hook_site
                names = [a.arg for a in f.node.args.args]
                b = dict(zip(names, args))
                b.update(kw)
                self.caps.append({k: it.term(v, s) for k, v in b.items()})
                return Val(it.fresh("centroid", f.node))

            hooks.opaque_funcs["compute_centroid"] = centroid

        kw = {"initial_point": point_arg()} if given else {}
        r = run_optimizer(program(root), "NelderMead", {}, kw, "NelderMead", setup)
        self.R = ORun("NelderMead", f"NelderMead[{'initial simplex' if given else 'random simplex'}]", r)
        self.inv = invariants_of(self.R)
        self.sizes = {sym("initial_point"): Arith("add", DIM, ONE)} if given else {}

    def rw(self, t):
        for _ in range(4):
            n = subst(t, self.inv)
            if n is t:
                return t
            t = n
        return t


def is_index(N, i):
    """-1 or the number of the last vertex."""
    return i is const(-1) or N.R.alg.equal(N.norm(i), DIM)[0] is True


def sorted_by(t):
    """t = gather(X, argsort(C)) -> X, C"""
    if t.op == "gather" and t.args[1].op == "npcall" and t.args[1].args[0] == "argsort" and len(t.args[1].args[1]) == 1:
        return t.args[0], t.args[1].args[1][0]
    return None


def is_shrink(N, t, S):
    """The value of a loop (or comprehension) replacing vertices 1..dim by
    their mean with vertex 0.  -> True / (False, why) / None"""
    R, rw = N.R, N.rw
    s0 = Select(S, ZERO)
    if t.op == "phi" and t in R.phis:
        info = R.phis[t]
        lid = t.args[0]
        L = next((e for e in R.loops() if e.data["lid"] == lid), None)
        if L is None or not L.data["is_for"]:
            return None
        entry = rw(info["entry"])
        back = rw(info["back"])
        if entry is not S:
            return None
        if back.op != "store" or back.args[0] is not t:
            return (False, "the shrink step changes the simplex in other ways")
        idx = mk("idx", lid)
        j, v = back.args[1], back.args[2]
        n = N.trip(L)
        if n is None:
            return None
        a = N.R.alg
        first = subst(j, {idx: ZERO})
        if a.equal(Arith("add", j, Neg(idx)), ONE)[0] is not True or a.equal(first, ONE)[0] is not True:
            return (False, f"the shrink step starts at vertex {show(first)}")
        if a.equal(N.norm(n), DIM)[0] is not True:
            return (False, f"the shrink step visits {show(n)} vertices")
        v = subst(v, {Select(t, ZERO): s0, Select(S, j): Select(t, j)})
        xj = Select(t, j)
        if v in (M("pair_mean", s0, xj), M("pair_mean", xj, s0)):
            return True
        return (False, f"vertex {show(j)} becomes {show(v, 6)}")
    if t.op == "concat" and len(t.args) == 2:
        h, m = t.args
        if h.op == "list" and len(h.args) == 1 and rw(h.args[0]) is s0 and m.op == "map":
            sl = rw(m.args[1])
            x = hole()
            if sl.op == "slice" and sl.args[0] is S and sl.args[1] is ONE and sl.args[2] is NONE:
                b = rw(m.args[0])
                hs = [y for y in subterms(b) if y.op == "hole"]
                if hs and b in (M("pair_mean", s0, hs[0]), M("pair_mean", hs[0], s0)):
                    return True
                return (False, f"vertices become {show(b, 6)}")
    return None


def actions(N, t, S, notes):
    """ite tree over (indicator, point)."""
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        r = go_(t)
        memo[t] = r
        return r

    def go_(t):
        if t.op == "ite":
            a, b = go(t.args[1]), go(t.args[2])
            c = t.args[0]
            if c.op == "more":
                return b
            return Ite(c, a[0], b[0]), Ite(c, a[1], b[1])
        if t.op == "store" and t.args[0] is S and is_index(N, t.args[1]):
            return ZERO, t.args[2]
        k = is_shrink(N, t, S)
        if k is True:
            return ONE, SHRINK
        if k is None:
            notes["unknown"].append(t)
            return mk("unknown", "action", t.tid), OTHER
        notes["bad"].append((t, k[1]))
        return const(2), OTHER

    return go(t)


def simplify_more(t):
    m = {s: FALSE for s in subterms(t) if s.op == "more"}
    return subst(t, m) if m else t


def check(rep, root, given):
    N = NM(root, given)
    R = N.R
    lab = R.label
    a = R.alg
    L = R.main_loop()
    if L is None or not N.caps:
        rep.unk(f"iteration loop@{lab}", "iteration loop or centroid call not found", LOC)
        return
    rep.count("configurations")
    lid = L.data["lid"]
    cap = {k: N.rw(v) for k, v in N.caps[-1].items()}
    pts = next((v for v in cap.values() if v.op in ("slice", "gather", "phi", "map")), None)
    if cap.get("manifold") is not MANIFOLD or pts is None:
        rep.unk(f"centroid@{lab}", f"arguments {[show(v) for v in cap.values()]}", LOC)
        return
    S = pts
    if pts.op == "slice":
        S, lo, hi, step = pts.args
        okk = (lo in (NONE, ZERO)) and (step in (NONE, ONE)) and is_index(N, hi)
        if okk:
            rep.ok(f"centroid of all but the worst@{lab}", show(pts), LOC)
        elif modelled(pts):
            rep.bad(f"centroid of all but the worst@{lab}", f"the centroid is taken over {show(pts)}", LOC)
        else:
            rep.unk(f"centroid of all but the worst@{lab}", show(pts), LOC)
    else:
        rep.bad(f"centroid of all but the worst@{lab}", f"the centroid is taken over {show(pts)}", LOC)
    st = sorted_by(S)
    if st is None or st[0].op != "phi":
        # sorted at the end of the iteration?
        if S.op == "phi" and sorted_by(N.rw(R.phis[S]["back"])) is None:
            rep.bad(f"sorted@{lab}", "the simplex is not sorted by cost before the step", LOC)
        elif S.op == "gather" and S.args[1].op == "slice" and S.args[1].args[0].op == "npcall" and S.args[1].args[0].args[0] == "argsort" and S.args[1].args[3] is const(-1):
            rep.bad(f"sorted@{lab}", f"the simplex is sorted by decreasing cost: {show(S)}", LOC)
        else:
            rep.unk(f"sorted@{lab}", f"simplex {show(S)}", LOC)
        return
    X, C = st
    C = N.rw(C)
    h = hole()
    paired = C is Map(cost_of(h), X)
    phiC = None
    if paired:
        rep.ok(f"costs paired@{lab}", "costs = cost of the vertices, by an inferred invariant", LOC)
    elif C.op == "phi" and C in R.phis and C.args[0] == lid:
        phiC = C
    else:
        cx = C.args[1] if C.op == "map" else None
        if cx is not None and cx.op == "phi" and cx is not X:
            v, w = None, show(C)
            for j in (const(-1), ZERO):
                v, w = decide_equal(R, Select(C, j), cost_of(Select(X, j)))
                if v is False:
                    break
            rep.verdict(f"costs paired@{lab}", v if v is False else None, f"costs of a different set of points: {w}", LOC)
        elif cx is not None and X.op == "phi" and R.phis[X].get("back") is not X and not contains(C, lambda s: s.op == "phi" and s.args[0] == lid):
            rep.bad(f"sorted@{lab}", f"the simplex of an iteration is sorted by costs from before the first one: {show(C)}", LOC)
        else:
            rep.unk(f"costs paired@{lab}", f"costs {show(C)}", LOC)
        return
    CS = Gather(C, argsort_of(S))
    rep.ok(f"sorted@{lab}", "vertices and costs are gathered by the same argsort of the costs", LOC)
    cent = [s for t in R.phis.values() for s in subterms(t["back"]) if s.op == "fresh" and s.args[0] == "centroid"]
    if len(set(cent)) != 1:
        rep.unk(f"step@{lab}", f"{len(set(cent))} centroids", LOC)
        return
    xbar = cent[0]
    worst = Select(S, const(-1))
    vec = M("log", xbar, worst)
    c0, c2, c1 = (N.rw(Select(CS, k)) for k in (ZERO, const(-2), const(-1)))

    def at(name, sgn):
        f = cfg(name)
        f = Neg(f) if sgn < 0 else f
        return M("retraction", xbar, Arith("mul", f, vec))

    xr, xe, xo, xi = at("reflection", -1), at("expansion", -1), at("contraction", -1), at("contraction", 1)
    cr, ce, co, ci = (cost_of(p) for p in (xr, xe, xo, xi))

    def tree(r, e, o, i, s):
        return Ite(And(Le(c0, cr), Lt(cr, c2)), r,
                   Ite(Lt(cr, c0), Ite(Lt(ce, cr), e, r),
                       Ite(Lt(cr, c1), Ite(Le(co, cr), o, s), Ite(Le(ci, c1), i, s))))

    back = simplify_more(N.rw(R.phis[X]["back"]))
    notes = {"unknown": [], "bad": []}
    ind, pt = actions(N, back, S, notes)
    facts = [Le(c0, c2), Le(c2, c1)]
    for t, why in notes["bad"]:
        rep.bad(f"shrink@{lab}", why, LOC)
    if notes["unknown"]:
        rep.unk(f"replaced vertex@{lab}", f"effect on the simplex: {show(notes['unknown'][0], 6)}", LOC)
    else:
        if not notes["bad"]:
            rep.ok(f"shrink@{lab}", "vertices 1..dim become their means with vertex 0", LOC)
            verdict(rep, R, f"shrink decision@{lab}", ind, tree(ZERO, ZERO, ZERO, ZERO, ONE), facts)
        want = tree(xr, xe, xo, xi, OTHER if notes["bad"] else SHRINK)
        verdict(rep, R, f"replaced vertex@{lab}", pt, want, facts)
    if phiC is not None:
        costs_alone(rep, N, lab, X, phiC, S, CS, facts, back)
    # initial simplex
    e = N.rw(R.phis[X]["entry"])
    while sorted_by(e) is not None:
        e = sorted_by(e)[0]
    if given:
        if e is sym("initial_point"):
            rep.ok(f"initial simplex@{lab}", show(e), LOC)
        else:
            rep.unk(f"initial simplex@{lab}", show(e), LOC)
    elif e.op == "map" and e.args[0].op == "fresh" and "random_point" in str(e.args[0].args[0]) and N.length(e.args[1]) is not None:
        n = N.length(e.args[1])
        v, w = a.equal(N.norm(n), Arith("add", DIM, ONE))
        rep.verdict(f"initial simplex@{lab}", v, f"{show(n)} random vertices", LOC)
    else:
        rep.unk(f"initial simplex@{lab}", show(e), LOC)
    # the result is the best vertex
    p = R.attr("point")
    if p is None:
        rep.unk(f"result@{lab}", "no result", LOC)
    else:
        best = Select(S, ZERO)
        pp = N.rw(p)
        if pp is best:
            rep.ok(f"best vertex returned@{lab}", "the result is vertex 0 of the sorted simplex", LOC)
        else:
            v, w = decide_equal(R, pp, best)
            if v is None and pp.op == "select" and modelled(pp):
                j = pp.args[1]
                if pp.args[0] is S and j.op == "const" and j is not ZERO:
                    v, w = False, f"the result is vertex {show(j)} of the sorted simplex"
                elif pp.args[0] is X and j is ZERO:
                    v, w = False, "the result is vertex 0 of the unsorted simplex"
            rep.verdict(f"best vertex returned@{lab}", v, w, LOC)
    N.evaluations(rep, lab, L, Arith("add", DIM, ONE), LOC)


def costs_alone(rep, N, lab, X, phiC, S, CS, facts, back):
    """Costs are a loop variable of their own: vertex and cost move together."""
    R = N.R
    entry = decide_equal(R, N.rw(R.phis[phiC]["entry"]), Map(cost_of(hole()), N.rw(R.phis[X]["entry"])))
    cb = simplify_more(N.rw(R.phis[phiC]["back"]))
    bad, unk = [], []

    def leaf_cost(t):
        if t.op == "ite":
            if t.args[0].op == "more":
                return leaf_cost(t.args[2])
            return Ite(t.args[0], leaf_cost(t.args[1]), leaf_cost(t.args[2]))
        if t.op == "store" and t.args[0] is CS and is_index(N, t.args[1]):
            return t.args[2]
        if t.op == "phi":
            return SHRINK
        unk.append(t)
        return mk("unknown", "cost", t.tid)

    def leaf_point(t):
        if t.op == "ite":
            if t.args[0].op == "more":
                return leaf_point(t.args[2])
            return Ite(t.args[0], leaf_point(t.args[1]), leaf_point(t.args[2]))
        if t.op == "store" and t.args[0] is S and is_index(N, t.args[1]):
            return cost_of(t.args[2])
        if t.op == "phi":
            return SHRINK
        unk.append(t)
        return mk("unknown", "point", t.tid)

    got, want = leaf_cost(cb), leaf_point(back)
    if unk:
        rep.unk(f"costs paired@{lab}", f"effect on costs or simplex: {show(unk[0], 6)}", LOC)
    else:
        verdict(rep, R, f"costs paired@{lab}", got, want, facts)
    # inside the shrink loop
    for t, i in R.phis.items():
        if t.args[0] != phiC.args[0] and N.rw(i["entry"]) is CS:
            b = N.rw(i["back"])
            for u, k in R.phis.items():
                if u.args[0] == t.args[0] and u is not t and N.rw(k["entry"]) is S:
                    ub = N.rw(k["back"])
                    if b.op == "store" and ub.op == "store" and b.args[1] is ub.args[1]:
                        v, w = R.alg.equal(b.args[2], cost_of(ub.args[2]))
                        if v is False and not (modelled(b.args[2], ub.args[2])):
                            v = None
                        rep.verdict(f"costs paired in the shrink step@{lab}", v, f"{show(b.args[2], 6)} for {show(ub.args[2], 6)}", LOC)
                    elif ub.op == "store" and b is t:
                        rep.bad(f"costs paired in the shrink step@{lab}", "costs are not updated with the vertices", LOC)
                    else:
                        rep.unk(f"costs paired in the shrink step@{lab}", show(b), LOC)
    if entry[0] is False:
        rep.bad(f"costs paired initially@{lab}", entry[1], LOC)


def argsort_of(S):
    return S.args[1]


def verdict(rep, R, key, got, want, facts):
    v, w = R.alg.equal(got, want, facts)
    if v is False and not modelled(w[1], w[2]):
        v = None
    rep.verdict(key, v, witness(w) if v is not True else "equal case-split normal forms", LOC)


def centroid(rep, root):
    """compute_centroid minimises half the sum of squared distances."""
    P = program(root)
    hooks = OptHooks(P)
    it, st = fresh_interp(P, hooks)
    hooks.assume[Eq(mk("attr", MANIFOLD, "num_values"), ONE)] = True
    lay = mk("attr", MANIFOLD, "point_layout")
    hooks.assume[Eq(ONE, lay)] = True
    hooks.assume[Eq(lay, ONE)] = True
    hooks.isinstance_ = lambda t, c, o=hooks.isinstance_: c == "int" if t is lay else o(t, c)
    y, pts = sym("y"), sym("points")
    got = {}
    loc = "pymanopt.optimizers.nelder_mead:compute_centroid"

    def solve(it, f, args):
        kw, s, node = it.hook_site
        pr = args[1] if len(args) > 1 else kw["problem"]
        got["calls"] = got.get("calls", 0) + 1
        got["manifold"] = it.term(it.getattr(pr, "manifold", s, node), s)
        for n in ("cost", "riemannian_gradient"):
            fn = it.getattr(pr, n, s, node)
            got[n] = it.term(it.call(fn, [Val(y, frozenset())], {}, s, node), s)
        got["result"] = it.fresh("result", f.node)
        got["optimizer"] = args[0]
        return Val(got["result"])

    for o in OPTS:
        hooks.opaque_funcs[o + ".run"] = solve
    f = P.get("pymanopt.optimizers.nelder_mead", "compute_centroid")
    if f is None:
        rep.unk("centroid", "compute_centroid not found", loc)
        return
    try:
        v = it.term(it.call(f, [Val(MANIFOLD), Val(pts)], {}, st, entry_node("centroid")), st)
    except Exception as e:
        rep.unk("centroid", f"not analysable: {e!r}", loc)
        return
    if got.get("calls") != 1:
        rep.unk("centroid", f"{got.get('calls', 0)} optimizer runs", loc)
        return
    a = Alg(is_vec=lambda t: it.kindof(t) == "array")
    h = hole()
    d = M("dist", y, h)
    def summand(t):
        """{element: coefficient} for a term built from sums over pts."""
        if t.op == "add":
            out = {}
            for x in t.args:
                r = summand(x)
                if r is None:
                    return None
                for k, c in r.items():
                    out[k] = out.get(k, 0) + c
            return out
        if t.op == "neg":
            r = summand(t.args[0])
            return None if r is None else {k: -c for k, c in r.items()}
        if t.op == "div" and is_num(t.args[1]):
            r = summand(t.args[0])
            return None if r is None else {k: c / t.args[1].args[0] for k, c in r.items()}
        if t.op == "mul":
            for x, z in (t.args, t.args[::-1]):
                if is_num(x):
                    r = summand(z)
                    return None if r is None else {k: c * x.args[0] for k, c in r.items()}
            return None
        if t.op == "npcall" and t.args[0] == "sum" and len(t.args[1]) == 1 and not t.args[2] and t.args[1][0].op == "map":
            b, q = t.args[1][0].args
            c = 1
            if q is not pts:
                return {t: 1} if modelled(t) else None
            while True:
                if b.op == "neg":
                    b, c = b.args[0], -c
                elif b.op == "div" and is_num(b.args[1]):
                    b, c = b.args[0], c / b.args[1].args[0]
                elif b.op == "mul" and is_num(b.args[0]):
                    b, c = b.args[1], c * b.args[0].args[0]
                elif b.op == "mul" and is_num(b.args[1]):
                    b, c = b.args[0], c * b.args[1].args[0]
                else:
                    break
            hs = {s: h for s in subterms(b) if s.op == "hole"}
            return {subst(b, hs): c}
        if t is ZERO or t is M("zero_vector", y):
            return {}
        return None

    sq = {Arith("pow", d, const(2)), Arith("mul", d, d), Arith("pow", M("dist", h, y), const(2))}
    lg = M("log", y, h)
    r = summand(got["cost"])
    if r is None:
        rep.unk("centroid objective", show(got["cost"], 8), loc)
        return
    else:
        good = len(r) == 1 and set(r) <= sq and list(r.values())[0] > 0
        k = list(r.values())[0] if good else 0.5
        rep.verdict("centroid objective", good, show(got["cost"], 8), loc)
    r = summand(got["riemannian_gradient"])
    if r is None:
        rep.unk("centroid gradient", show(got["riemannian_gradient"], 8), loc)
    else:
        good = {k: c for k, c in r.items() if c} == {lg: -2 * k}
        rep.verdict("centroid gradient", good, show(got["riemannian_gradient"], 8), loc)
    rep.verdict("centroid manifold", got["manifold"] is MANIFOLD or None, show(got["manifold"]), loc)
    rep.verdict("centroid result", v is mk("attr", got["result"], "point") or (False if modelled(v) else None), show(v), loc)


def run(rep, tier):
    for given in (True, False):
        try:
            check(rep, rep.root, given)
        except (RecursionError, OverflowError) as e:
            rep.unk(f"NelderMead[{given}]", repr(e), LOC)
    try:
        centroid(rep, rep.root)
    except (RecursionError, OverflowError) as e:
        rep.unk("centroid", repr(e), LOC)
