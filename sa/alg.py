"""Normal forms for the scalar/vector expressions of the optimizers.

A value graph term is mapped to a polynomial over *atoms* (uninterpreted
calls, φ nodes, symbols).  The algebra knows: ring laws, bilinearity and
symmetry of ``inner_product``, ``norm(x, v) = sqrt(inner_product(x, v, v))``,
fractional powers of products, and that ``max``/``min``/conditional
expressions can be compared by a case split over their guards.
"""
import time
from fractions import Fraction

from .terms import *

DEADLINE = [time.time() + 600]
BILINEAR = {"inner_product"}


def num(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return None


CONDS = {"not", "and", "or", "gt0", "ge0", "eq0"}
SEQ_REBUILD = {"select", "store", "map", "gather", "slice", "len", "append"}
_ITE = {}


class Budget(Exception):
    pass


def has_ite(t):
    r = _ITE.get(t)
    if r is None:
        if t.op == "ite":
            r = True
        elif t.op in ("const", "sym"):
            r = False
        else:
            r = any(has_ite(a) for a in flat_args(t))
        _ITE[t] = r
    return r


class Alg:
    def __init__(self, is_vec=lambda t: False, linear=(), rules=None):
        self.is_vec = is_vec
        self.linear = set(linear)  # methods linear in their last argument
        self.rules = rules or {}
        self.memo = {}
        self.limit = 4000

    # polynomials: dict monomial -> Fraction, monomial = tuple of (atom, exp)

    def poly(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._poly(t)
            self.memo[t] = r
        return r

    def atom(self, t):
        return {((t, Fraction(1)),): Fraction(1)}

    def const(self, v):
        v = Fraction(v)
        return {(): v} if v else {}

    def add(self, p, q, c=1):
        r = dict(p)
        for m, k in q.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def scale(self, p, c):
        return {m: k * c for m, k in p.items()} if c else {}

    def monomul(self, a, b):
        d = {}
        for t, e in a:
            d[t] = d.get(t, 0) + e
        for t, e in b:
            d[t] = d.get(t, 0) + e
        # |x|^2 = x^2 ; pow(poly,1/2)^2 = poly handled in mul
        return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda te: te[0].tid))

    def mul(self, p, q):
        r = {}
        if time.time() > DEADLINE[0]:
            raise Budget()
        for m, k in p.items():
            for n, l in q.items():
                mm = self.monomul(m, n)
                v = r.get(mm, 0) + k * l
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
        if len(r) > self.limit:
            raise OverflowError
        return self.clean(r)

    def clean(self, p):
        """Rewrite powpoly atoms raised to positive integers and abs squares."""
        for m in list(p):
            for t, e in m:
                if t.op == "polybase" and e.denominator == 1 and e > 0:
                    k = p.pop(m)
                    rest = tuple(x for x in m if x[0] is not t)
                    base = self.unpoly(t.args[0])
                    q = {rest: k}
                    for _ in range(int(e)):
                        q = self.mul(q, base)
                    return self.clean(self.add(p, q))
                if t.op == "absatom" and e.denominator == 1 and e % 2 == 0:
                    k = p.pop(m)
                    rest = {tuple(x for x in m if x[0] is not t): k}
                    q = self.mul(rest, {((t.args[0], e),): Fraction(1)})
                    return self.clean(self.add(p, q))
        return p

    def term(self, p):
        """Canonical Term of a polynomial."""
        if not p:
            return ZERO
        if len(p) == 1:
            (m, k), = p.items()
            if not m:
                return mk("const", int(k)) if k.denominator == 1 else mk("rat", k)
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        items = sorted(p.items(), key=lambda mk_: tuple((t.tid, e) for t, e in mk_[0]))
        return mk("poly", tuple((k, tuple((t, e) for t, e in m)) for m, k in items))

    def unpoly(self, t):
        if t.op == "poly":
            return {tuple(m): k for k, m in t.args[0]}
        if t.op == "rat":
            return {(): t.args[0]}
        if t.op == "const" and num(t.args[0]) is not None and not isinstance(t.args[0], bool):
            return self.const(num(t.args[0]))
        return self.atom(t)

    def canon(self, t):
        return self.term(self.poly(t))

    def power(self, p, e):
        e = Fraction(e)
        if e == 0:
            return self.const(1)
        if not p:
            return {} if e > 0 else self.atom(mk("inf"))
        if e.denominator == 1 and e > 0 and e <= 6:
            r = self.const(1)
            for _ in range(int(e)):
                r = self.mul(r, p)
            return r
        if len(p) == 1:
            (m, k), = p.items()
            if e.denominator == 1:
                return self.clean({tuple((t, x * e) for t, x in m): Fraction(k) ** int(e)})
            # fractional power of a monomial
            kk = self.ratpow(k, e)
            if kk is not None:
                out = []
                ok = True
                for t, x in m:
                    y = x * e
                    if x.denominator == 1 and x % 2 == 0 and y.denominator == 1 and y % 2 != 0 and not self.nonneg(t):
                        out.append((mk("absatom", t), y))
                    elif self.nonneg(t) or x % 2 != 0 or y.denominator != 1:
                        out.append((t, y))
                    else:
                        out.append((t, y))
                if ok:
                    return self.clean({self.monomul(tuple(out), ()): kk})
        # general: normalise by leading coefficient
        lead = min(p, key=lambda m: tuple((t.tid, x) for t, x in m))
        k = p[lead]
        kk = self.ratpow(abs(k), e)
        if kk is not None:
            s = k if e.denominator == 1 else abs(k)
            base = self.scale(p, 1 / s)
            c = (kk if k > 0 or e % 2 == 0 else -kk) if e.denominator == 1 else kk
        else:
            base, c = p, Fraction(1)
        return {((mk("polybase", self.term(base)), e),): c}

    def ratpow(self, k, e):
        if k < 0:
            return None
        if e.denominator == 1:
            return Fraction(k) ** int(e)
        if e.denominator == 2:
            import math
            n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
            if n * n == k.numerator and d * d == k.denominator:
                return Fraction(n, d) ** int(e * 2)
        return None

    def nonneg(self, t):
        if t.op == "absatom":
            return True
        if t.op == "mcall" and t.args[0] == "inner_product" and t.args[2][1] is t.args[2][2]:
            return True
        if t.op == "npcall" and t.args[0] in ("spacing", "abs"):
            return True
        return False

    # -- vectors --------------------------------------------------------

    def split(self, m):
        """Split monomial into (scalar monomial, vector atom)."""
        v = [(t, e) for t, e in m if self.vec(t)]
        if len(v) != 1 or v[0][1] != 1:
            return None
        return tuple(x for x in m if x is not v[0] and x != v[0]), v[0][0]

    def vec(self, t):
        return self.is_vec(t)

    def inner(self, x, u, v, target, kw=()):
        pu, pv = self.poly(u), self.poly(v)
        su = [(self.split(m), k) for m, k in pu.items()]
        sv = [(self.split(m), k) for m, k in pv.items()]
        cx = self.canon(x)
        if any(s is None for s, _ in su) or any(s is None for s, _ in sv):
            return self.atom(mk("mcall", "inner_product", target, tuple([cx] + sorted([self.term(pu), self.term(pv)], key=lambda t: t.tid)), kw))
        r = {}
        for (ms, a), k in su:
            for (ns, b), l in sv:
                if a.tid > b.tid:
                    a_, b_ = b, a
                else:
                    a_, b_ = a, b
                at = mk("mcall", "inner_product", target, (cx, a_, b_), kw)
                r = self.add(r, self.mul(self.mul({ms: k}, {ns: l}), self.atom(at)))
        return r

    def _poly(self, t):
        r = self.rules.get(t)
        if r is not None:
            return self.poly(r)
        op, a = t.op, t.args
        if op == "const":
            v = a[0]
            if not isinstance(v, bool):
                n = num(v)
                if n is not None:
                    return self.const(n)
            return self.atom(t)
        if op in ("poly", "rat"):
            return self.unpoly(t)
        if op == "add":
            return self.add(self.poly(a[0]), self.poly(a[1]))
        if op == "neg":
            return self.scale(self.poly(a[0]), Fraction(-1))
        if op == "mul":
            return self.mul(self.poly(a[0]), self.poly(a[1]))
        if op == "div":
            return self.mul(self.poly(a[0]), self.power(self.poly(a[1]), -1))
        if op == "pow":
            e = self.poly(a[1])
            if not e:
                return self.const(1)
            if len(e) == 1 and () in e:
                return self.power(self.poly(a[0]), e[()])
            return self.atom(mk("pow", self.canon(a[0]), self.term(e)))
        if op == "npcall":
            n = a[0]
            if n == "sqrt" and len(a[1]) == 1:
                return self.power(self.poly(a[1][0]), Fraction(1, 2))
            if n in ("float", "real", "array_") and len(a[1]) == 1:
                return self.poly(a[1][0])
            if n == "abs":
                p = self.poly(a[1][0])
                if len(p) == 1:
                    (m, k), = p.items()
                    out = []
                    for x, e in m:
                        if self.nonneg(x) or e % 2 == 0:
                            out.append((x, e))
                        else:
                            out.append((mk("absatom", x), e))
                    return {self.monomul(tuple(out), ()): abs(k)}
                if p:
                    lead = min(p, key=lambda m: tuple((t.tid, x) for t, x in m))
                    if p[lead] < 0:
                        p = self.scale(p, Fraction(-1))
                return self.atom(mk("absatom", self.term(p)))
            if n in ("max2", "min2") and len(a[1]) == 2:
                x, y = sorted(a[1], key=lambda t: t.tid)
                c = Lt(x, y)
                e = Ite(c, y, x) if n == "max2" else Ite(c, x, y)
                return self.poly(e)
            if n == "vdot2":
                pass
        if op == "mcall":
            name, target, args, kw = a
            if name == "inner_product" and len(args) == 3:
                return self.inner(args[0], args[1], args[2], target, kw)
            if name == "norm" and len(args) == 2:
                return self.power(self.inner(args[0], args[1], args[1], target, kw), Fraction(1, 2))
            if name in self.linear and args:
                p = self.poly(args[-1])
                sp = [(self.split(m), k) for m, k in p.items()]
                if all(s is not None for s, _ in sp):
                    r = {}
                    pre = tuple(self.canon(x) for x in args[:-1])
                    for (ms, v), k in sp:
                        r = self.add(r, self.mul({ms: k}, self.atom(mk("mcall", name, target, pre + (v,), kw))))
                    return r
            if name == "zero_vector":
                return {}
        if op == "ite":
            c = self.cond(a[0])
            if c is TRUE:
                return self.poly(a[1])
            if c is FALSE:
                return self.poly(a[2])
            x, y = self.canon(a[1]), self.canon(a[2])
            if c.op == "not":
                c, x, y = c.args[0], y, x
            if x is y:
                return self.unpoly(x)
            return self.atom(mk("ite", c, x, y))
        return self.atom(self.recanon(t))

    def recanon(self, t):
        """Canonicalise the children of an atom."""
        if t.op in ("const", "sym", "phi", "fresh", "undef", "idx", "more"):
            return t

        def go(a):
            if isinstance(a, Term):
                if is_boolean(a):
                    return self.cond(a)
                return self.canon(a)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a

        return mk(t.op, *[go(a) for a in t.args])

    # -- conditions -----------------------------------------------------

    def sign(self, p):
        """Canonical positive multiple of p: (term, +1/-1)."""
        if not p:
            return ZERO, 1
        lead = min(p, key=lambda m: (len(m) == 0, tuple((t.tid, x) for t, x in m)))
        k = p[lead]
        return self.term(self.scale(p, 1 / abs(k))), 1

    def cond(self, c):
        r = self.memo.get(("c", c))
        if r is None:
            r = self._cond(c)
            self.memo[("c", c)] = r
        return r

    def _cond(self, c):
        r = self.rules.get(c)
        if r is not None:
            return self.cond(r)
        op, a = c.op, c.args
        if op == "not":
            x = self.cond(a[0])
            if x.op == "gt0":
                return mk("ge0", self.term(self.scale(self.unpoly(x.args[0]), Fraction(-1))))
            if x.op == "ge0":
                return mk("gt0", self.term(self.scale(self.unpoly(x.args[0]), Fraction(-1))))
            return Not(x)
        if op == "and":
            return And(*[self.cond(x) for x in a])
        if op == "or":
            return Or(*[self.cond(x) for x in a])
        if op in ("lt", "le"):
            p = self.add(self.poly(a[1]), self.poly(a[0]), -1)
            if not p or (len(p) == 1 and () in p):
                v = p.get((), Fraction(0))
                return TRUE if (v > 0 if op == "lt" else v >= 0) else FALSE
            t, _ = self.sign(p)
            return mk("gt0" if op == "lt" else "ge0", t)
        if op == "eq":
            if a[0].op in ("const",) and not is_num(a[0]):
                return mk("eq", a[0], self.recanon(a[1]) if not is_num(a[1]) else a[1])
            p = self.add(self.poly(a[1]), self.poly(a[0]), -1)
            if not p:
                return TRUE
            if len(p) == 1 and () in p:
                return FALSE
            lead = min(p, key=lambda m: (len(m) == 0, tuple((t.tid, x) for t, x in m)))
            return mk("eq0", self.term(self.scale(p, 1 / p[lead])))
        if op == "ite":
            return Ite(self.cond(a[0]), self.cond(a[1]), self.cond(a[2]))
        if op == "const":
            return c
        if op == "truthy":
            return mk("truthy", self.canon(a[0]))
        return self.recanon(c)

    # -- case split equality ---------------------------------------------

    def gates(self, t, out):
        for s in subterms(t):
            if s.op == "ite":
                self.cond_atoms(s.args[0], out)
        return out

    def cond_atoms(self, c, out):
        if c.op in ("and", "or", "not"):
            for x in c.args:
                self.cond_atoms(x, out)
        elif c.op == "ite":
            for x in c.args:
                self.cond_atoms(x, out)
        elif c not in (TRUE, FALSE):
            a = self.pos(c)[0]
            if a not in out:
                out.append(a)

    def pos(self, c):
        """Sign-normalised atom and polarity: ge0(p) == not gt0(-p)."""
        if c.op == "ge0":
            t = self.term(self.scale(self.unpoly(c.args[0]), Fraction(-1)))
            return mk("gt0", t), False
        return c, True

    def evalc(self, c, asg):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "not":
            v = self.evalc(c.args[0], asg)
            return None if v is None else not v
        if c.op == "and":
            vs = [self.evalc(x, asg) for x in c.args]
            if any(v is False for v in vs):
                return False
            return None if any(v is None for v in vs) else True
        if c.op == "or":
            vs = [self.evalc(x, asg) for x in c.args]
            if any(v is True for v in vs):
                return True
            return None if any(v is None for v in vs) else False
        if c.op == "ite":
            v = self.evalc(c.args[0], asg)
            if v is None:
                return None
            return self.evalc(c.args[1 if v else 2], asg)
        a, p = self.pos(c)
        v = asg.get(a)
        if v is None:
            return None
        return v == p

    def resolve(self, t, asg, memo=None):
        """Resolve ites of a canonical term under an assignment; re-normalise.

        Conditions are resolved too, so that a guard over a conditional
        expression is compared with the guard of the selected branch."""
        if memo is None:
            memo = {}

        def go(t):
            r = memo.get(t)
            if r is None:
                r = go_(t)
                memo[t] = r
            return r

        def look(c):
            v = self.evalc(c, asg)
            return c if v is None else (TRUE if v else FALSE)

        def gocond(c):
            r = memo.get(("c", c))
            if r is None:
                r = memo[("c", c)] = gocond_(c)
            return r

        def gocond_(c):
            v = self.evalc(c, asg)
            if v is not None:
                return TRUE if v else FALSE
            if c.op == "not":
                return Not(gocond(c.args[0]))
            if c.op == "and":
                return And(*[gocond(x) for x in c.args])
            if c.op == "or":
                return Or(*[gocond(x) for x in c.args])
            if c.op == "ite":
                return Ite(gocond(c.args[0]), gocond(c.args[1]), gocond(c.args[2]))
            if not has_ite(c):
                return c
            if c.op in ("gt0", "ge0", "eq0"):
                t2 = go(c.args[0])
                if t2 is c.args[0]:
                    return c
                p = self.poly(t2)
                if not p or (len(p) == 1 and () in p):
                    k = p.get((), Fraction(0))
                    return TRUE if (k > 0 if c.op == "gt0" else k >= 0 if c.op == "ge0" else k == 0) else FALSE
                if c.op == "eq0":
                    return look(mk("eq0", self.normeq(self.term(p))))
                return look(mk(c.op, self.sign(p)[0]))
            return look(mk(c.op, *[ga(a) for a in c.args]))

        def go_(t):
            if not has_ite(t):
                return gocond(t) if t.op in CONDS else t
            if t.op == "ite":
                c = gocond(t.args[0])
                if c is TRUE:
                    return go(t.args[1])
                if c is FALSE:
                    return go(t.args[2])
                x, y = go(t.args[1]), go(t.args[2])
                if x is y:
                    return x
                if c.op == "not":
                    c, x, y = c.args[0], y, x
                return mk("ite", c, x, y)
            if t.op == "poly":
                p = {}
                for k, m in t.args[0]:
                    q = {(): k}
                    for x, e in m:
                        q = self.mul(q, self.power(self.poly(go(x)), e))
                    p = self.add(p, q)
                return self.term(p)
            if t.op in ("const", "sym", "phi", "fresh", "rat", "idx"):
                return t
            if t.op in ("gt0", "ge0", "eq0") or is_boolean(t):
                return gocond(t)
            n = mk(t.op, *[ga(a) for a in t.args])
            if n is t:
                return t
            if n.op == "polybase":
                return self.term(self.power(self.poly(n.args[0]), 1))
            if n.op in SEQ_REBUILD:
                n = rebuild(n.op, *n.args)
            return self.term(self.poly(n))

        def ga(a):
            if isinstance(a, Term):
                if is_boolean(a) or a.op in ("gt0", "ge0", "eq0"):
                    return gocond(a)
                return go(a)
            if isinstance(a, tuple):
                return tuple(ga(x) for x in a)
            return a

        return go(t)

    def theory_ok(self, asg):
        """Prune assignments inconsistent for a pair p>0, -p>0 / equality."""
        for a, v in asg.items():
            if a.op == "gt0" and v:
                n = mk("gt0", self.term(self.scale(self.unpoly(a.args[0]), Fraction(-1))))
                if asg.get(n):
                    return False
                e = mk("eq0", self.normeq(a.args[0]))
                if asg.get(e):
                    return False
            if a.op == "gt0" and not v:
                n = mk("gt0", self.term(self.scale(self.unpoly(a.args[0]), Fraction(-1))))
                e = mk("eq0", self.normeq(a.args[0]))
                if asg.get(n) is False and asg.get(e) is False:
                    return False
        return self.zone_ok(asg)

    def zone_ok(self, asg):
        """Difference-bound consistency of the inequalities in asg."""
        edges = []  # (u, v, c, strict): u - v <= c (strict: <)

        def add(p, strict):
            # p >= 0 or p > 0
            c = p.get((), Fraction(0))
            ms = [(m, k) for m, k in p.items() if m]
            if len(ms) == 1:
                (m, k), = ms
                a = (m, None) if k > 0 else (None, m)
            elif len(ms) == 2 and ms[0][1] == -ms[1][1]:
                pos = ms[0] if ms[0][1] > 0 else ms[1]
                neg = ms[1] if pos is ms[0] else ms[0]
                k = pos[1]
                a = (pos[0], neg[0])
            else:
                return
            # |k| (x - y) + c >= 0  ->  y - x <= c/|k|
            edges.append((a[1], a[0], c / abs(k), strict))

        for a, v in asg.items():
            if a.op == "gt0":
                p = self.unpoly(a.args[0])
                add(p if v else self.scale(p, Fraction(-1)), v)
            elif a.op == "ge0":
                p = self.unpoly(a.args[0])
                add(p if v else self.scale(p, Fraction(-1)), not v)
            elif a.op == "eq0" and v:
                p = self.unpoly(a.args[0])
                add(p, False)
                add(self.scale(p, Fraction(-1)), False)
        if len(edges) < 2:
            return True
        nodes = {u for e in edges for u in e[:2]}
        dist = {u: (Fraction(0), 0) for u in nodes}
        for i in range(len(nodes) + 1):
            changed = False
            for u, v, c, s in edges:
                d = (dist[v][0] + c, dist[v][1] - (1 if s else 0))
                if d < dist[u]:
                    dist[u] = d
                    changed = True
            if not changed:
                return True
        return False

    def normeq(self, t):
        p = self.unpoly(t)
        lead = min(p, key=lambda m: (len(m) == 0, tuple((x.tid, e) for x, e in m)))
        return self.term(self.scale(p, 1 / p[lead]))

    def cases(self, atoms, assume=()):
        """Enumerate consistent truth assignments of condition atoms."""
        n = len(atoms)
        if n > 12:
            return None
        out = []
        for bits in range(1 << n):
            asg = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
            if not self.theory_ok(asg):
                continue
            if any(self.evalc(c, asg) is False for c in assume):
                continue
            out.append(asg)
        return out

    def next_atom(self, ts):
        """First guard atom (outermost first) that contains no conditional."""
        seen = set()

        def cond(c):
            if c.op in ("and", "or", "not", "ite"):
                for x in c.args:
                    r = cond(x)
                    if r is not None:
                        return r
                return None
            if c in (TRUE, FALSE):
                return None
            if has_ite(c):
                return walk(c)
            return self.pos(c)[0]

        def walk(t):
            if t in seen or not has_ite(t):
                return None
            seen.add(t)
            if t.op == "ite":
                r = cond(t.args[0])
                if r is not None:
                    return r
            for a in flat_args(t):
                r = walk(a)
                if r is not None:
                    return r
            return None

        for t in ts:
            r = walk(t)
            if r is not None:
                return r
        return None

    def equal(self, s, t, assume=(), budget=1500, facts=()):
        """True / False (with witness) / None."""
        try:
            return self._equal(s, t, assume, budget, facts)
        except Budget:
            return None, "too many cases"

    def _equal(self, s, t, assume, budget, facts):
        a, b = self.canon(s), self.canon(t)
        if a is b:
            return True, None
        self.budget = budget
        asg = {}
        rest = []
        for c in list(assume) + list(facts):
            c = self.cond(c)
            if c.op in ("gt0", "ge0", "eq0") and not has_ite(c):
                x, pol = self.pos(c)
                asg[x] = pol
            elif c is FALSE:
                return True, None
            elif c is not TRUE:
                rest.append(c)
        if not self.theory_ok(asg):
            return True, None
        try:
            w = self._split(a, b, asg, rest)
        except Budget:
            return None, "too many cases"
        if w is None:
            return True, None
        if w == "unsat?":
            return None, "assumptions too large"
        return False, w

    def _split(self, a, b, asg, assume):
        """None when equal in every consistent case, else a witness."""
        self.budget -= 1
        if self.budget < 0 or time.time() > DEADLINE[0]:
            raise Budget()
        if a is b:
            return None
        at = self.next_atom([a, b])
        if at is None:
            d = self.add(self.poly(a), self.poly(b), -1)
            if self.iszero(d, asg):
                return None
            r = self.sat(assume, asg)
            if r is False:
                return None
            if r is None:
                return "unsat?"
            return (asg, a, b)
        soft = None
        for v in (True, False) if at not in asg else (asg[at],):
            g = dict(asg)
            g[at] = v
            if not self.theory_ok(g):
                continue
            memo = {}
            one = {at: v}
            na = self.resolve(a, g, memo)
            nb = self.resolve(b, g, memo)
            ns = [self.resolve(c, g, memo) for c in assume]
            if any(c is FALSE for c in ns):
                continue
            tie = self.tie(at, v, g)
            if tie:
                na, nb = subst(na, tie), subst(nb, tie)
            r = self._split(na, nb, g, [c for c in ns if c is not TRUE])
            if r == "unsat?":
                soft = r
            elif r is not None:
                return r
        return soft

    def tie(self, at, v, g):
        """t^e = c on the boundary of two strict comparisons: t -> value."""
        if at.op != "gt0" or v:
            return None
        z = self.unpoly(at.args[0])
        if len(z) != 2 or () not in z:
            return None
        if g.get(mk("gt0", self.term(self.scale(z, Fraction(-1))))) is not False:
            return None
        (mt, kt), = [(m, k) for m, k in z.items() if m]
        if len(mt) != 1:
            return None
        t, e = mt[0]
        c = -z[()] / kt
        if c <= 0:
            return None
        q = self.ratpow(c, 1 / e)
        if q is None:
            return None
        lit = lambda q: const(int(q)) if q.denominator == 1 else Arith("div", const(q.numerator), const(q.denominator))
        m = {t: lit(q)}
        if t.op == "mcall" and t.args[0] == "inner_product" and len(t.args[2]) == 3 and t.args[2][1] is t.args[2][2]:
            r = self.ratpow(q, Fraction(1, 2))
            if r is not None:
                m[mk("mcall", "norm", t.args[1], t.args[2][:2], ())] = lit(r)
        return m

    def sat(self, assume, asg):
        """Is the conjunction of conditions consistent with asg?"""
        assume = [c for c in (self.resolve(c, asg) for c in assume) if c is not TRUE]
        if any(c is FALSE for c in assume):
            return False
        if not assume:
            return True
        atoms = []
        for c in assume:
            if has_ite(c) and c.op not in ("and", "or", "not"):
                continue
            self.cond_atoms(c, atoms)
        atoms = [a for a in atoms if not has_ite(a) and a not in asg]
        if len(atoms) > 14:
            return None
        at = atoms[0] if atoms else None
        if at is None:
            return True
        for v in (True, False) if at not in asg else (asg[at],):
            g = dict(asg)
            g[at] = v
            if not self.theory_ok(g):
                continue
            r = self.sat(assume, g)
            if r is not False:
                return r
        return False

    def iszero(self, d, asg):
        if self.ratzero(d):
            return True
        for a, v in asg.items():
            if a.op == "eq0" and v:
                z = self.unpoly(a.args[0])
            elif a.op == "gt0" and not v and asg.get(mk("gt0", self.term(self.scale(self.unpoly(a.args[0]), Fraction(-1))))) is False:
                z = self.unpoly(a.args[0])
            else:
                continue
            if len(z) == 2 and () in z:
                # t^e = c: replace every power of t
                (mt, kt), = [(m, k) for m, k in z.items() if m]
                if len(mt) == 1:
                    t0, e0 = mt[0]
                    c0 = -z[()] / kt
                    d2 = {}
                    ok = True
                    for m, k in d.items():
                        rest = []
                        for t, e in m:
                            if t is t0 and c0 > 0:
                                q = self.ratpow(c0, e / e0)
                                if q is None:
                                    ok = False
                                    q = 1
                                k = k * q
                            else:
                                rest.append((t, e))
                        rest = tuple(rest)
                        d2[rest] = d2.get(rest, 0) + k
                        if not d2[rest]:
                            del d2[rest]
                    if ok and self.ratzero(d2):
                        return True
            m = min(z, key=lambda m: (len(m) == 0, tuple((t.tid, e) for t, e in m)))
            if m in d and self.ratzero(self.add(d, z, -d[m] / z[m])):
                return True
        return False

    def ratzero(self, p):
        """Zero test after clearing denominators of polybase atoms."""
        for _ in range(6):
            if not p:
                return True
            bases = {}
            for m in p:
                for t, e in m:
                    if t.op == "polybase" and e < 0:
                        bases[t] = min(bases.get(t, 0), e)
            if not bases:
                return False
            b, e = min(bases.items(), key=lambda x: x[0].tid)
            if e.denominator == 1:
                p = self.mul(p, {((b, -e),): Fraction(1)})
            else:
                p = self.mul(p, {((b, -e),): Fraction(1)})
                if all(x.denominator != 1 for m in p for t, x in m if t is b):
                    return not p
        return not p
