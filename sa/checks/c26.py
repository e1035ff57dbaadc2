"""C26: distances, logarithms and exponential maps stay inside the domains of their functions."""
from ..manobl import *
from ..ranges import Ranges
from ..terms import show
from .. import opt_common as oc

RULE = (
    "dist, log, exp and retraction are executed on symbolic points and vectors.  For every application of a function "
    "that is not defined everywhere (inverse trigonometric and hyperbolic functions, roots, logarithms, divisions) an "
    "interval analysis with rounding derives a bound on the argument from clips, minima, masks, squares, norms and sums "
    "with positive constants; quantities positive on the whole manifold in exact arithmetic count as positive.  A site "
    "whose argument may leave the domain is reported when the value graph is not finite at a coincident, antipodal, "
    "partly coincident, zero or partly zero argument."
)
FLOOR = 60

OPSET = (("dist", (X, Y)), ("log", (X, Y)), ("exp", (X, U)), ("retraction", (X, U)))


def run(rep, tier):
    global ROUNDS
    ROUNDS = 60 if tier == "quick" else 400
    each_space(rep, load(oc.ROOT), body)


ROUNDS = 60


def body(o):
    s = o.s
    R = Ranges(s)
    done = set()
    for name, args in OPSET:
        if name == "retraction" and "exp" in done and o.r.where("exp") == o.r.where("retraction"):
            continue
        t = o.call(name, *args)
        if t is None or not isinstance(t, Term):
            continue
        done.add(name)
        sites = {}
        for site, fn, arg, cons in R.sites(t):
            ok, what, r = R.demand(fn, arg, cons, site)
            k = (fn, arg)
            if k not in sites or not ok:
                sites[k] = (ok, what, r, cons)
        o.rep.count("application sites", len(sites))
        open_ = []
        for n, ((fn, arg), (ok, what, r, cons)) in enumerate(sorted(sites.items(), key=lambda x: (x[0][0], show(x[0][1], 6)))):
            key = o.key("domain %s(%s)" % (fn, short(arg)), name)
            if ok:
                o.rep.ok(key, "argument in %r, must be %s" % (r, what), o.r.where(name))
            else:
                open_.append((key, fn, arg, what, r))
        if not sites:
            o.rep.ok(o.key("no partial function", name), "total operations only", o.r.where(name))
        if open_:
            bad = refute(s, t, name, args)
            hit = [x for x in open_ if bad and outside(x[1], x[2], bad[1])] if bad else []
            for x in open_:
                if bad and (x in hit or not hit):
                    o.rep.bad(x[0], "%s; %s(%s): the argument must be %s, known range %r" % (bad[0], x[1], show(x[2], 4)[:160], x[3], x[4]), o.r.where(name))
                else:
                    o.rep.unk(x[0], "argument %s: known range %r, must be %s" % (show(x[2], 4)[:160], x[4], x[3]), o.r.where(name))


def short(t):
    import hashlib

    return hashlib.sha256(show(t, 12).encode()).hexdigest()[:6]


def outside(fn, arg, ev):
    import numpy as np

    try:
        a = np.asarray(ev(arg))
    except Exception:
        return False
    if a.dtype == object or np.iscomplexobj(a):
        return bool(np.any(a == 0)) if a.dtype != object else False
    with np.errstate(all="ignore"):
        return bool({
            "arccos": lambda: np.any(np.abs(a) > 1), "arcsin": lambda: np.any(np.abs(a) > 1),
            "arctanh": lambda: np.any(np.abs(a) >= 1), "arccosh": lambda: np.any(a < 1),
            "sqrt": lambda: np.any(a < 0), "div": lambda: np.any(a == 0), "reciprocal": lambda: np.any(a == 0),
        }.get(fn, lambda: np.any(a <= 0))())


def partly(rng, shp, axis):
    """A mask selecting some of the factors along an axis."""
    import numpy as np

    n = shp[axis]
    m = np.zeros(n, bool)
    m[rng.permutation(n)[: max(1, n // 2)]] = True
    return m.reshape([-1 if i == axis % len(shp) else 1 for i in range(len(shp))])


def refute(s, t, name, args):
    """An argument at which the operation is not finite."""
    import numpy as np

    from ..tnum import Num, NumError

    for sz in s.sizes():
        for seed in range(ROUNDS):
            rng = np.random.default_rng(7919 * seed + 11)
            try:
                env = s.numenv(rng, sz)
            except Exception:
                return None
            x = np.asarray(env[X])
            trials = [("generic", {})]
            parts = s.split is not None and not (isinstance(s, Stacked) and s.K != "k")
            if Y in args:
                trials.append(("coincident points", {Y: x.copy()}))
                if s.antipodal and name == "dist":
                    trials.append(("antipodal points", {Y: -x}))
                if parts:
                    trials.append(("partly coincident points", {Y: np.where(partly(rng, x.shape, s.split), x, env[Y])}))
            else:
                u = np.asarray(env[U])
                trials.append(("zero vector", {U: np.zeros_like(u)}))
                if parts:
                    trials.append(("partly zero vector", {U: np.where(partly(rng, u.shape, s.split), 0 * u, u)}))
            for what, ch in trials:
                e = dict(env)
                e.update(ch)
                ev = Num(e, rng)
                try:
                    with np.errstate(all="ignore"):
                        v = np.asarray(ev(t))
                except (NumError, np.linalg.LinAlgError):
                    continue
                except Exception:
                    return None
                if v.dtype != object and not np.all(np.isfinite(v)):
                    return ("not finite for %s (shape %s)" % (what, x.shape), ev)
    return None
