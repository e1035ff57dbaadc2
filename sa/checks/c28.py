"""C28: product manifolds act factor by factor."""
from ..alg import Alg
from ..interp import Dead
from ..man import *
from ..values import Ref, Tup
from ..opt import entry_node
from .. import opt_common as oc
from ..manobl import load
from ..vectors import scalars, in_place

RULE = (
    "Product is executed with one to three (thorough: five) opaque factor manifolds; every operation's value graph is compared with the "
    "operation of each factor applied to that factor's components in order (sum for inner products and dimensions, root of the "
    "sum of squares for norms, distances and scale). Tangent vectors returned support the vector operations component by component, also augmented, and NumPy scalars hand over to them."
)
FLOOR = 90

# operation -> argument names
SINGLE = {
    "projection": "xw", "to_tangent_space": "xw", "embedding": "xu", "exp": "xu", "retraction": "xu", "log": "xy",
    "random_point": "", "zero_vector": "x", "transport": "xyu", "pair_mean": "xy",
    "euclidean_to_riemannian_gradient": "xg", "euclidean_to_riemannian_hessian": "xghu",
}
TANGENT = (
    "projection", "to_tangent_space", "embedding", "log", "random_tangent_vector", "zero_vector", "transport",
    "euclidean_to_riemannian_gradient", "euclidean_to_riemannian_hessian",
)
KNOWN = {"mcall", "attr", "add", "mul", "neg", "div", "pow", "const", "sym", "ite", "eq", "not", "list", "tuple", "sub", "max", "min", "max2", "min2"}
NPOK = {"max", "min", "mean", "average", "prod", "amax", "amin", "sqrt", "sum", "float", "array_", "int", "abs", "asarray", "array"}


class Facts:
    def __init__(self, nested=False):
        self.nested = nested

    def attr(self, t, name):
        return None

    def decide(self, t):
        return None

    def kind(self, t):
        return None

    def isinstance_(self, t, cname):
        return self.nested if cname.split(".")[-1] == "Product" else None


def clear(t):
    if not isinstance(t, Term):
        return True
    if t.op == "npcall":
        return t.args[0] in NPOK and all(clear(x) for x in t.args[1]) and not t.args[2]
    if t.op == "mcall":
        return all(clear(x) for x in t.args[2])
    return t.op in KNOWN and all(clear(x) for x in t.args)


def elements(t):
    """Elements of a literal sequence, elementwise operations applied."""
    if t.op in ("list", "tuple"):
        return list(t.args)
    if t.op == "npcall" and t.args[0] in ("array_", "array", "asarray") and t.args[1]:
        return elements(t.args[1][0])
    if t.op == "pow":
        b = elements(t.args[0])
        return None if b is None else [mk("pow", x, t.args[1]) for x in b]
    if t.op == "npcall" and t.args[0] in ("sqrt", "square", "abs") and len(t.args[1]) == 1 and not t.args[2]:
        b = elements(t.args[1][0])
        if b is None:
            return None
        return [mk("pow", x, const(2)) if t.args[0] == "square" else mk("npcall", t.args[0], (x,), ()) for x in b]
    if t.op in ("mul", "add", "div"):
        l, r = elements(t.args[0]), elements(t.args[1])
        if l is None and r is None:
            return None
        n = len(l if l is not None else r)
        l = l or [t.args[0]] * n
        r = r or [t.args[1]] * n
        return [Arith(t.op, a, b) for a, b in zip(l, r)]
    return None


def plain(t):
    """Sums and norms of literal sequences written out."""
    if not isinstance(t, Term):
        return t
    if t.op == "npcall" and not t.args[2] and t.args[0] in ("sum", "add.reduce", "linalg.norm", "mean", "average") and len(t.args[1]) == 1:
        e = elements(t.args[1][0])
        if e is not None:
            e = [plain(x) for x in e]
            if t.args[0] == "linalg.norm":
                e = [x.args[1][0] if x.op == "npcall" and x.args[0] == "sqrt" else mk("pow", x, const(2)) for x in e]
            r = const(0)
            for x in e:
                r = Arith("add", r, x)
            if t.args[0] in ("mean", "average"):
                r = Arith("div", r, const(len(e)))
            return mk("npcall", "sqrt", (r,), ()) if t.args[0] == "linalg.norm" else r
    if t.op == "ext" and t.args[0] == "math.sqrt":
        return mk("npcall", "sqrt", (plain(t.args[1][0]),), ())
    if t.op in ("add", "mul", "neg", "div", "pow"):
        return mk(t.op, *[plain(x) for x in t.args])
    if t.op == "npcall" and t.args[0] in ("sqrt", "float"):
        return mk("npcall", t.args[0], tuple(plain(x) for x in t.args[1]), t.args[2])
    if t.op == "mcall" and t.args[0] in ("item", "sum") and t.args[0] == "item":
        return plain(t.args[1])
    return t


def call(m, name, *args):
    return mk("mcall", name, m, tuple(args), ())


class Run:
    def __init__(self, rep, program, m):
        self.rep, self.m = rep, m
        self.Ms = [sym("M%d" % i) for i in range(m)]
        self.r = ManRun(program, "Product", [Tup([Val(x) for x in self.Ms])], {}, Facts())
        self.alg = Alg()
        rep.count("product configurations")

    def seq(self, n):
        return Tup([Val(self.el(n, i)) for i in range(self.m)])

    def el(self, n, i):
        return sym("%s%d" % (n, i))

    def key(self, rule, name):
        return "%s@Product[%d].%s" % (rule, self.m, name)

    def same(self, rule, name, got, want):
        k = self.key(rule, name)
        where = self.r.where(name)
        if not isinstance(got, Term):
            self.rep.bad(k, "the result is not a single value", where)
            return
        got = plain(got)
        if got is want:
            self.rep.ok(k, "same operation", where)
            return
        try:
            v = True if self.alg.equal(got, want)[0] else False
            if v and self.zeroed(got) != self.zeroed(want):
                v = False
        except Exception as e:
            v = None
        if v is False and not v_close(self.alg, got, want):
            if not clear(got):
                self.rep.unk(k, "not comparable: %s" % show(got)[:200], where)
            else:
                self.rep.bad(k, "%s, expected %s" % (show(got)[:200], show(want)[:200]), where)
        else:
            self.rep.verdict(k, None if v is None else True, "value graphs agree", where)

    def zeroed(self, t):
        return t.op == "mcall" and t.args[0] == "zero_vector"

    def op(self, name, letters):
        c = self.r.call(name, *[self.seq(a) for a in letters])
        self.rep.count("operations executed symbolically")
        if c.value is None:
            ks = c.raises
            self.rep.verdict(self.key("supported", name), False if ks and "?" not in ks else None, "raises %s" % ", ".join(ks), self.r.where(name))
            return None, None
        return c, c.terms()

    def run(self):
        r = range(self.m)
        el = self.el
        for name, letters in SINGLE.items():
            c, t = self.op(name, letters)
            if c is None:
                continue
            if not isinstance(t, tuple):
                self.rep.unk(self.key("factorwise", name), "result is not a literal sequence", self.r.where(name))
                continue
            if len(t) != self.m:
                self.rep.bad(self.key("factorwise", name), "%d components for %d factors" % (len(t), self.m), self.r.where(name))
                continue
            for i in r:
                want = call(self.Ms[i], name, *[el(a, i) for a in letters])
                got = t[i]
                if name == "embedding" and isinstance(got, Term) and got.op == "ite":
                    got = self.embedded(got, i)
                self.same("factorwise.%d" % i, name, got, want)
            if name in TANGENT:
                self.vector(name, c)
        c, t = self.op("random_tangent_vector", "x")
        if c is not None:
            if isinstance(t, tuple) and len(t) == self.m:
                for i in r:
                    # unit norm in the product metric when the factors return unit vectors
                    want = Arith("mul", mk("pow", const(self.m), const(-0.5)), call(self.Ms[i], "random_tangent_vector", el("x", i)))
                    self.same("unit-norm.%d" % i, "random_tangent_vector", t[i], want)
                self.vector("random_tangent_vector", c)
            else:
                self.rep.unk(self.key("unit-norm", "random_tangent_vector"), "result is not a literal sequence")
        ips = [call(self.Ms[i], "inner_product", el("x", i), el("u", i), el("v", i)) for i in r]
        c, t = self.op("inner_product", "xuv")
        if c is not None:
            self.same("sum", "inner_product", t, total(ips))
        c, t = self.op("norm", "xu")
        if c is not None:
            self.same("root-sum-square", "norm", t, root(total([call(self.Ms[i], "inner_product", el("x", i), el("u", i), el("u", i)) for i in r])))
        c, t = self.op("dist", "xy")
        if c is not None:
            self.same("root-sum-square", "dist", t, root(total([mk("pow", call(self.Ms[i], "dist", el("x", i), el("y", i)), const(2)) for i in r])))
        at = lambda i, n: mk("attr", self.Ms[i], n)
        for name, want in (
            ("dim", total([at(i, "dim") for i in r])),
            ("typical_dist", root(total([mk("pow", at(i, "typical_dist"), const(2)) for i in r]))),
        ):
            v, st = self.r.get(name)
            self.same("sum" if name == "dim" else "root-sum-square", name, self.r.it.term(v, st), want)
        v, st = self.r.get("point_layout")
        t = flatten_value(self.r.it, v, st)
        if isinstance(t, tuple) and len(t) == self.m:
            for i in r:
                self.same("factorwise.%d" % i, "point_layout", t[i], at(i, "point_layout"))
        else:
            self.rep.unk(self.key("factorwise", "point_layout"), "not a literal sequence")

    def embedded(self, t, i):
        """The factor's embedding, except for factors without an ambient array."""
        leaves = []
        conds = []

        def walk(x):
            if x.op == "ite":
                conds.append(x.args[0])
                walk(x.args[1])
                walk(x.args[2])
            else:
                leaves.append(x)

        walk(t)
        only = all("attr" in {y.op for y in subterms(c)} and any(y.op == "attr" and y.args[0] is self.Ms[i] and y.args[1] == "point_layout" for y in subterms(c)) for c in conds)
        emb = [x for x in leaves if x.op == "mcall"]
        rest = [x for x in leaves if x.op != "mcall"]
        if only and len(set(emb)) == 1 and all(x is self.el("u", i) for x in rest):
            return emb[0]
        return t

    def vector(self, name, c):
        """Vector operations on the returned tangent vector."""
        it, st = self.r.it, c.st
        base = c.terms()
        other = [sym("z%d" % i) for i in range(self.m)]
        a = Val(sym("alpha"))
        o = Tup([Val(x) for x in other])
        A = a.term
        cases = {
            "add": (lambda s: it.binop("add", c.value, o, s, NODE), lambda b, z: Arith("add", b, z)),
            "sub": (lambda s: it.binop("sub", c.value, o, s, NODE), lambda b, z: Arith("add", b, Neg(z))),
            "mul": (lambda s: it.binop("mul", c.value, a, s, NODE), lambda b, z: Arith("mul", b, A)),
            "rmul": (lambda s: it.binop("mul", a, c.value, s, NODE), lambda b, z: Arith("mul", b, A)),
            "truediv": (lambda s: it.binop("div", c.value, a, s, NODE), lambda b, z: Arith("div", b, A)),
            "neg": (lambda s: it.call(it.getattr(c.value, "__neg__", s, NODE), [], {}, s, NODE), lambda b, z: Neg(b)),
            "iadd": (lambda s: it.call(it.getattr(c.value, "__iadd__", s, NODE), [o], {}, s, NODE), lambda b, z: Arith("add", b, z)),
            "imul": (lambda s: it.call(it.getattr(c.value, "__imul__", s, NODE), [a], {}, s, NODE), lambda b, z: Arith("mul", b, A)),
        }
        cls = None
        if isinstance(c.value, Ref) and st.heap[c.value.addr].kind == "inst":
            cls = st.heap[c.value.addr].cls
            scalars(self.rep, self.key, cls, self.r.where(name))
        for op, (f, want) in cases.items():
            k = self.key("vector." + op, name)
            s = st.copy()
            plainseq = isinstance(c.value, Tup) or (isinstance(c.value, Ref) and s.heap[c.value.addr].kind == "list")
            if plainseq:
                self.rep.bad(k, "the result is a plain sequence, which has no vector operations", self.r.where(name))
                continue
            if op in ("iadd", "imul"):
                h = in_place(cls, op[1:]) if cls is not None else None
                if h is None:
                    # falls back to the plain operator
                    continue
                if isinstance(h, str):
                    self.rep.bad(k, "augmented %s is that of %s, which %s the sequence" % (("addition", h, "extends") if op == "iadd" else ("multiplication", h, "repeats")), self.r.where(name))
                    continue
            it.sinks.append([])
            try:
                v = f(s)
            except Dead:
                v = None
            sink = it.sinks.pop()
            self.rep.count("vector operations")
            if v is None:
                self.rep.verdict(k, False if sink else None, "raises %s" % ", ".join(sorted({str(x[0]) for x in sink})), self.r.where(name))
                continue
            t = flatten_value(it, v, s)
            if not isinstance(t, tuple) or len(t) != self.m:
                if isinstance(t, tuple) and len(t) != self.m:
                    self.rep.bad(k, "%d components" % len(t), self.r.where(name))
                else:
                    self.rep.unk(k, "not a literal sequence", self.r.where(name))
                continue
            for i in range(self.m):
                self.same("vector.%s.%d" % (op, i), name, t[i], want(base[i], other[i]))


NODE = entry_node("vector")


def v_close(alg, a, b):
    """Equal up to the rounding of constant coefficients."""
    try:
        p, q = alg.poly(a), alg.poly(b)
    except Exception:
        return False
    if set(p) != set(q):
        # roots of constants are atoms: compare numerically
        p, q = numeric(p), numeric(q)
        if p is None or q is None or set(p) != set(q):
            return False
    return all(abs(float(p[k]) - float(q[k])) <= 1e-9 * max(1.0, abs(float(q[k]))) for k in p)


def numeric(p):
    out = {}
    for m, c in p.items():
        rest = []
        c = float(c)
        for t, e in m:
            if t.op == "polybase" or t.op == "prime":
                try:
                    v = float(t.args[0].args[0]) if isinstance(t.args[0], Term) else float(t.args[0])
                except (TypeError, ValueError, AttributeError, IndexError):
                    return None
                c *= v ** float(e)
            else:
                rest.append((t, e))
        out[tuple(rest)] = out.get(tuple(rest), 0.0) + c
    return out


def subterms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Term) and x not in out:
            out.add(x)
            todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def total(ts):
    r = const(0)
    for t in ts:
        r = Arith("add", r, t)
    return r


def root(t):
    return mk("npcall", "sqrt", (t,), ())


def run(rep, tier):
    program = load(oc.ROOT)
    for m in (1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
        x = Run(rep, program, m)
        if x.r.ref is None:
            rep.unk("construct@Product[%d]" % m, "construction raises")
            continue
        x.run()
    r = ManRun(program, "Product", [Tup([Val(sym("M0")), Val(sym("M1"))])], {}, Facts(True))
    rep.verdict("nested@Product.__init__", r.ref is None, "products of products are refused" if r.ref is None else "a nested product is accepted", r.where("__init__"))
