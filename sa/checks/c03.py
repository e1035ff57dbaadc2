"""C03: tangent vectors are used at their own base point."""
from ..opt_common import *
from ..opt import fresh_interp
from .. import linesearch

RULE = (
    "A base point is inferred for every tangent-vector term (gradients, Hessian and preconditioner images, logarithms, "
    "transports, linear combinations, loop variables by induction); obligation for every inner product, norm, "
    "retraction, transport, Hessian, preconditioner and line-search call site: base point of each vector argument = point argument."
)
FLOOR = 60

# method -> (index of the point, indices of its vectors)
USES_M = {
    "inner_product": (0, (1, 2)), "norm": (0, (1,)), "retraction": (0, (1,)), "exp": (0, (1,)),
    "transport": (0, (2,)), "euclidean_to_riemannian_hessian": (0, (3,)),
}
USES_P = {"riemannian_hessian": (0, (1,)), "preconditioner": (0, (1,))}
USES_L = {"search": (2, (3,))}
BASED_M = {"transport": 1, "projection": 0, "to_tangent_space": 0, "zero_vector": 0, "log": 0,
           "euclidean_to_riemannian_gradient": 0, "euclidean_to_riemannian_hessian": 0, "random_tangent_vector": 0}
BASED_P = {"riemannian_gradient": 0, "riemannian_hessian": 0, "preconditioner": 0}
ANY = mk("anybase")
J = sym("$J")


class Conflict(Exception):
    pass


class Bases:
    def __init__(self, R):
        self.R = R
        self.hyp = {}  # list or vector φ -> base term
        self.freshb = {}
        self.memo = {}
        self.conflicts = []
        for e in R.events:
            if e.kind == "call" and e.data["result"].op == "fresh" and e.data["callee"].op == "attr" and e.data["callee"].args[1] == "random_tangent_vector" and e.data["args"]:
                t = e.data["result"]
                self.freshb[t.args[1]] = (t, e.data["args"][0])
        self.loopinfo = {e.data["lid"]: e for e in R.loops()}

    # -- sequence normalisation -------------------------------------------

    def seq(self, t, inloops):
        """Rewrite reads of elementwise-updated loop lists."""
        R = self.R
        memo = {}

        def storeform(f):
            b = R.phis[f]["back"]
            L = f.args[0]
            if b.op == "store" and b.args[0] is f and b.args[1].op == "idx" and b.args[1].args[0] == L:
                return b.args[2]
            return None

        def go(t):
            r = memo.get(t)
            if r is None:
                memo[t] = t
                r = memo[t] = go_(t)
            return r

        def go_(t):
            if t.op == "select" and t.args[0].op == "phi" and t.args[0] in R.phis:
                f, i = t.args
                i = go(i)
                v = storeform(f)
                if v is not None:
                    L = f.args[0]
                    if i.op == "idx" and i.args[0] == L:
                        return go(Select(R.phis[f]["entry"], i))
                    ev = self.loopinfo.get(L)
                    if L not in inloops and ev is not None and ev.data["is_for"] and not ev.data.get("breaks"):
                        # completed loop: the element written at index i
                        v2 = self.seq(v, set(inloops) | {L})
                        if not contains(v2, lambda s: s.op == "phi" and s.args[0] == L):
                            idx = mk("idx", L)
                            return go(subst(v2, {idx: i}))
                return Select(f, i)
            if not t.args or t.op in ("const", "sym", "fresh"):
                return t

            def ga(a):
                if isinstance(a, Term):
                    return go(a)
                if isinstance(a, tuple):
                    return tuple(ga(x) for x in a)
                return a

            new = [ga(a) for a in t.args]
            if all(x is y for x, y in zip(new, t.args)):
                return t
            r = rebuild(t.op, *new)
            return go(r) if r.op == "select" else r

        return go(t)

    # -- bases ----------------------------------------------------------------

    def base(self, t, same):
        """Base point of a vector term; None if not a (known) vector."""
        if t is ZERO:
            return ANY
        if t.op == "mcall":
            n, o, a = t.args[0], t.args[1], t.args[2]
            if o is MANIFOLD and n in BASED_M and len(a) > BASED_M[n]:
                return a[BASED_M[n]]
            if o is PROBLEM and n in BASED_P and a:
                return a[0]
            return None
        if t.op == "fresh" and len(t.args) > 1 and t.args[1] in self.freshb:
            t0, b = self.freshb[t.args[1]]
            for x in t.args[2:]:
                if isinstance(x, Term):
                    m = {h: x for h in subterms(b) if h.op == "hole"}
                    if t.args[1] in self.R.it.fresh_elem:
                        m[self.R.it.fresh_elem[t.args[1]]] = x
                    b = subst(b, m)
                elif self.peel is not None:
                    b = self.peel.at(b, dict(x))
            if self.peel is not None and not isinstance(t.args[-1], tuple):
                b = self.peel.at(b, {})
            return b
        if t.op == "neg":
            return self.base(t.args[0], same)
        if t.op in ("add", "mul", "div"):
            bs = []
            for a in t.args:
                b = self.base(a, same)
                if b is not None and b is not ANY:
                    bs.append(b)
            if not bs:
                return ANY if any(a is ZERO for a in t.args) and t.op == "add" else None
            for b in bs[1:]:
                if t.op == "add" and b is not bs[0]:
                    self.conflicts.append((bs[0], b))
            return bs[0]
        if t.op == "ite":
            a, b = self.base(t.args[1], same), self.base(t.args[2], same)
            if t.args[1] is UNDEF:
                return b
            if t.args[2] is UNDEF:
                return a
            if a is None or b is None:
                return None
            if a is ANY:
                return b
            if b is ANY:
                return a
            return Ite(t.args[0], a, b)
        if t.op == "sym":
            return linesearch.VECTOR_BASE.get(t)
        if t.op == "phi":
            return self.hyp.get(t)
        if t.op == "select" and t.args[0].op == "phi":
            c = self.hyp.get(t.args[0])
            if c is None:
                return None
            return Select(c, t.args[1])
        return None

    peel = None


def infer(B, R):
    phis = [f for f in R.phis if R.phis[f]["entry"] is not UNDEF]

    def eq(a, b):
        return a is b or R.alg.equal(a, b, budget=60)[0] is True

    inv = invariants_of(R)

    def sub(t):
        for _ in range(3):
            t = subst(t, inv)
        return t

    outer = {}
    for e in R.loops():
        outer[e.data["lid"]] = set(e.loops) | {e.data["lid"]}

    def elem(f, t, listy):
        t = sub(t)
        if listy:
            t = Select(t, J)
        return B.seq(t, set(loopids(outer.get(f.args[0], ()))))

    # which φs are vectors or lists of vectors
    for _ in range(4):
        changed = False
        for f in phis:
            if f in B.hyp:
                continue
            e = R.phis[f]["entry"]
            for listy in (False, True):
                be = B.base(elem(f, e, listy), eq)
                if be is None or be is ANY:
                    continue
                # candidates: φs of the same loop, or the entry's base itself
                cands = [c for c in phis if c.args[0] == f.args[0] and c is not f]
                for c in cands + ["fixed"]:
                    if c == "fixed":
                        if listy or contains(be, lambda s: s is J):
                            continue
                        ct, ce, cb = be, be, be
                        if contains(be, lambda s: s.op == "phi" and s.args[0] == f.args[0]):
                            continue
                    else:
                        ct = c
                        ce = elem(c, R.phis[c]["entry"], listy)
                        cb = elem(c, R.phis[c]["back"], listy)
                    if not eq(sub(be), ce):
                        continue
                    old = dict(B.hyp)
                    n0 = len(B.conflicts)
                    B.hyp[f] = ct
                    bb = B.base(elem(f, R.phis[f]["back"], listy), eq)
                    del B.conflicts[n0:]
                    if bb is not None and (bb is ANY or eq(sub(bb), cb)):
                        changed = True
                        break
                    B.hyp = old
                if f in B.hyp:
                    break
        if not changed:
            break


def loopids(ls):
    return [x if isinstance(x, str) else "L%d" % x for x in ls]


def sites(R):
    for e in R.run_events:
        if e.kind != "call":
            continue
        c = e.data["callee"]
        a = e.data["args"]
        if c.op == "attr":
            o, n = c.args[0], c.args[1]
            if o is MANIFOLD and n in USES_M:
                u = USES_M[n]
            elif o is PROBLEM and n in USES_P:
                u = USES_P[n]
            elif n in USES_L:
                u = USES_L[n]
            else:
                continue
            if len(a) <= max(u[1]):
                continue
            yield e, n, a[u[0]], [(i, a[i]) for i in u[1]]


def check(rep, R, loc):
    B = Bases(R)
    infer(B, R)
    inv = invariants_of(R)
    n = 0
    for e, name, p, vs in sites(R):
        for i, v in vs:
            n += 1
            key = f"{name}[arg {i}] {e.func}@{R.label}"
            inl = set(loopids(e.loops))
            t = B.seq(v, inl)
            B.conflicts = []
            b = B.base(t, None)
            confl = list(B.conflicts)
            done = False
            if b is not None:
                res = []
                for x, y in [(b, p)] + confl:
                    x, y = B.seq(x, inl), B.seq(y, inl)
                    if x is ANY or y is ANY or x is y:
                        res.append(True)
                        continue
                    x2, y2 = x, y
                    for _ in range(3):
                        x2, y2 = subst(x2, inv), subst(y2, inv)
                    r = R.alg.equal(x2, y2, facts_of(e), budget=200)[0]
                    res.append(True if r is True else None)
                if all(r is True for r in res):
                    rep.ok(key, f"vector based at {show(p, 3)[:80]}", e.loc)
                    done = True
            if not done:
                rep.verdict(key, *refute(R, e, p, v), e.loc)
    return n


def refute(R, e, p, v):
    """Compare base and point after a few concrete iterations."""
    lids = sorted({x.args[0] for x in R.phis})
    loops = {x.data["lid"]: x for x in R.loops()}
    main = R.main_loop()
    ml = main.data["lid"] if main is not None else None
    why = "base point not inferred"
    for n, inner in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1)):
        P = Peel(R, inner)
        env = {L: (n if L == ml else inner) for L in lids}
        own = [L for L in loopids(e.loops) if L != ml and loops.get(L) is not None and loops[L].data["is_for"]]
        if own and inner == 0:
            continue  # the call site is not reached
        for L in own:
            env[L] = inner - 1
        B = Bases(R)
        B.peel = P
        try:
            pv, pp = expand_stores(P.at(v, env)), expand_stores(P.at(p, env))
            b = B.base(pv, None)
            if b is None:
                continue
            asm = [c for c in (expand_stores(P.at(c, env)) for c in facts_of(e)) if modelled(c)]
            if R.alg.sat(asm, {}) is False:
                continue
            for x, y in [(b, pp)] + B.conflicts:
                if x is ANY or y is ANY or x is y:
                    continue
                x, y = expand_stores(x), expand_stores(y)
                r, w = R.alg.equal(x, y, asm, budget=300, facts=order_facts([x, y]))
                if r is False and modelled(w[1], w[2]) and decidable(w[1], w[2]):
                    return False, f"after {n} iterations a vector at the first point is used at the second: " + witness(w)
        except (OverflowError, RecursionError):
            continue
    return None, why


def run(rep, tier):
    for R in runs():
        rep.count("configurations")
        n = check(rep, R, f"{OPTS[R.opt]}:{R.opt}.run")
        rep.count("vector uses", n)
    for R in linesearch.runs():
        rep.count("line searches")
        rep.count("vector uses", check(rep, R, R.label))
