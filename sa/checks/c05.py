"""C05: line searches never accept an increase and report the step taken."""
from ..opt_common import *
from ..linesearch import X, D, F0, DF0
from .. import linesearch

RULE = (
    "Each search() is executed abstractly on symbolic arguments, with and without memory of an earlier search. "
    "Obligations by case split over the result's guards: returned point is x or a retraction of a multiple of d along x; its cost "
    "is not above f0; step = norm of the retracted vector; loop continues only while the sufficient decrease fails "
    "and fewer than max_iterations reductions were made; the step is multiplied by the contraction factor."
)
FLOOR = 20


def cfg(n):
    return sym("cfg." + n)


def B(c):
    return Ite(c, ONE, ZERO)


def impossible(R, c, L=None):
    return never(R, c, L, fx={cost_of(X): F0})


def pairs(t, u, path=()):
    """Joint leaves of two conditional terms."""
    for s in (t, u):
        if s.op == "ite":
            c = s.args[0]
            out = []
            for v, k in ((True, 1), (False, 2)):
                out += pairs(pick(t, c, v), pick(u, c, v), path + ((c, v),))
            return out
        if s is t and t.op in ("mul", "div", "neg") and any(a.op == "ite" for a in t.args):
            a = next(a for a in t.args if a.op == "ite")
            c = a.args[0]
            out = []
            for v in (True, False):
                out += pairs(pick(t, c, v), pick(u, c, v), path + ((c, v),))
            return out
    return [(path, t, u)]


def pick(t, c, v):
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op == "ite" and t.args[0] is c:
                r = go(t.args[1 if v else 2])
            elif not t.args or t.op in ("const", "sym", "fresh"):
                r = t
            else:
                new = [go(a) if isinstance(a, Term) else tuple(go(x) if isinstance(x, Term) else x for x in a) if isinstance(a, tuple) else a for a in t.args]
                r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t.op, *new)
            memo[t] = r
        return r
    return go(t)


def coeff(R, v):
    """α with v = α d, or None."""
    p = R.alg.poly(v)
    out = {}
    for m, k in p.items():
        ds = [(t, e) for t, e in m if t is D]
        if len(ds) != 1 or ds[0][1] != 1:
            return None
        rest = tuple((t, e) for t, e in m if t is not D)
        if any(contains(t, lambda s: s is D) and R.it.kindof(t) == "array" for t, e in rest):
            return None
        out[rest] = k
    return R.alg.term(out)


def lits(st, hp):
    return And(*[c if p else Not(c) for c, p in st.pc if (c, p) not in hp])


def unpoly(R, t):
    """Turn a canonical polynomial term back into an ordinary term."""
    if t.op == "poly":
        s = ZERO
        for k, m in t.args[0]:
            x = const(int(k)) if k.denominator == 1 else Arith("div", const(k.numerator), const(k.denominator))
            for a, e in m:
                y = a if e == 1 else Arith("pow", a, const(int(e)) if e.denominator == 1 else const(float(e)))
                x = Arith("mul", x, y)
            s = Arith("add", s, x)
        return s
    return t


def run(rep, tier):
    for R in linesearch.runs():
        rep.count("line searches")
        loc = R.label
        fx = {cost_of(X): F0}
        step, newx = subst(R.step, fx), subst(R.newx, fx)
        loops = R.loops()
        L = min(loops, key=lambda e: len(e.loops)) if loops else None
        ls = pairs(step, newx)
        cands = []
        for path, s, p in ls:
            conds = [c if v else Not(c) for c, v in path]
            if impossible(R, And(*conds))[0] is True:
                continue
            if p is X:
                rep.verdict(f"zero-step-when-rejected@{R.label}", *equal_in(R, s, ZERO, L, conds, fx), loc)
                continue
            if p.op == "mcall" and p.args[1] is MANIFOLD and p.args[0] in ("retraction", "exp") and len(p.args[2]) == 2:
                x0, v0 = p.args[2]
                if x0 is not X:
                    v, w = equal_in(R, x0, X, L, conds, fx)
                    rep.verdict(f"retracts-from-x@{R.label}", v, w, loc)
                    if v is not True:
                        continue
                a = coeff(R, v0)
                if a is None:
                    rep.unk(f"along-the-direction@{R.label}", show(v0, 5), loc)
                    continue
                rep.ok(f"along-the-direction@{R.label}", "multiple " + show(a, 3), loc)
                cands.append((conds, p, v0, unpoly(R, a)))
            v2, v0 = None, None
            if p.op == "mcall" and p.args[0] in ("retraction", "exp"):
                v0 = p.args[2][1]
                v, w = equal_in(R, Arith("mul", s, s), M("inner_product", X, v0, v0), L, conds, fx)
                rep.verdict(f"step-is-norm-of-retracted-vector@{R.label}", v, w, loc)
            else:
                v, w = last_candidate(R, p, L)
                rep.verdict(f"result-is-a-retraction@{R.label}", v, w, loc)
            v, w = never(R, And(*conds, Lt(F0, cost_of(p))), L, fx=fx)
            rep.verdict(f"no-cost-increase@{R.label}", v, "accepted although the cost may exceed the starting cost: " + str(w) if v is False else "guard excludes an increase", loc)
        if len(cands) == 0:
            rep.unk(f"no accepted candidate@{R.label}", show(newx, 4), loc)
            continue
        top = [e for e in loops if len(e.loops) == len(L.loops)] if L else []
        if len(top) != 1:
            rep.unk(f"backtracking@{R.label}", f"{len(top)} loops", loc)
            continue
        alphas = {a for _, _, _, a in cands}
        if len(alphas) != 1:
            rep.unk(f"backtracking@{R.label}", "several candidate steps", loc)
            continue
        a = alphas.pop()
        p = cands[0][1]
        sd = cfg("sufficient_decrease")
        armijo = Le(cost_of(p), Arith("add", F0, Arith("mul", Arith("mul", sd, a), DF0)))
        hp = set(L.data["header"].pc)
        back = lits(L.data["back"], hp)
        phis = [f for f in R.phis if f.args[0] == L.data["lid"]]
        sub = {f: R.phis[f]["back"] for f in phis}
        v, w = impossible(R, And(back, armijo), L)
        rep.verdict(f"backtracks-only-without-sufficient-decrease@{R.label}", v, w, loc)
        mx = cfg("max_iterations")
        counters = [f for f in phis if R.alg.equal(R.phis[f]["back"], Arith("add", f, ONE))[0] is True and R.phis[f]["entry"].op == "const"]
        exits = [lits(b, hp) for b in L.data["breaks"]]
        ex = L.data["exit"]
        if ex is not None:
            exits.append(lits(ex, hp))
        more = mk("more", L.data["lid"])
        if L.data["is_for"]:
            rep.ok(f"bounded@{R.label}", "for loop", loc)
            for e in exits:
                v, w = impossible(R, And(e, more, Not(armijo)))
                rep.verdict(f"continues-until-sufficient-decrease@{R.label}", True if v is True else None, w, loc)
        elif counters:
            c = counters[0]
            n0 = R.phis[c]["entry"].args[0]
            # three more reductions than allowed must be impossible
            v, w = R.alg.equal(as_bool(And(back, Lt(Arith("add", mx, const(n0 + 2)), c))), ZERO)
            rep.verdict(f"bounded@{R.label}", v if v is True or modelled(back) and decidable(back) else None, "the loop may continue beyond max_iterations" if v is False else "", loc)
            for e in exits:
                v, w = impossible(R, And(e, Not(armijo), Lt(c, mx)), L)
                rep.verdict(f"continues-until-sufficient-decrease@{R.label}", v, w, loc)
        else:
            v = None
            if not any(contains(t, lambda s: s is mx) for t in [back] + [R.phis[f][k] for f in phis for k in ("entry", "back")]):
                v = False
            elif not any(contains(back, lambda s: s is f) and R.phis[f]["entry"].op == "const" for f in phis):
                v = False
            rep.verdict(f"bounded@{R.label}", v, "no counter limits the number of reductions", loc)
        a2 = subst(a, sub)
        want = Arith("mul", cfg("contraction_factor"), a)
        v, w = R.alg.equal(a2, want)
        if v is not True and any(x.op == "phi" for x in subterms(a2)) :
            v, w = contraction_peeled(R, a, L)
        rep.verdict(f"contracts@{R.label}", v if v is True or modelled(a2) and decidable(a2) else None, w, loc)


def contraction_peeled(R, a, L):
    lid = L.data["lid"]
    P = Peel(R, 0)
    for n in (1, 2):
        x, y = P.at(a, {lid: n}), Arith("mul", cfg("contraction_factor"), P.at(a, {lid: n - 1}))
        v, w = R.alg.equal(x, y)
        if v is False:
            return (False, f"reduction {n}: " + witness(w)) if modelled(x, y) and decidable(x, y) else (None, w)
    return None, "not inductive"


def last_candidate(R, p, L):
    """The returned point is some retraction of a multiple of d from x."""
    if L is None:
        return None, ""
    lid = L.data["lid"]
    P = Peel(R, 0)
    for n in (0, 1, 2):
        q = P.at(p, {lid: n})
        if q is X:
            return False, f"after {n} iterations the starting point is returned as accepted"
        if q.op == "mcall" and q.args[0] == "retraction":
            if q.args[2][0] is not X and modelled(q.args[2][0]):
                return False, f"after {n} iterations the returned point is {show(q, 5)}"
    return None, show(p, 4)
