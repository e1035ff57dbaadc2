"""Abstract interpreter for the Python subset used by pymanopt.

Value-graph construction: every expression is mapped to a hash-consed term,
branches are joined with gated phi (``ite``) nodes, loops are solved by an
optimistic value-numbering fixpoint with phi nodes at loop headers.  No path
enumeration: states are merged at every control-flow join.
"""
import ast
import os

import math

from .terms import *
from . import terms as T
from .values import *


EXTCONST = {
    "numpy.inf": float("inf"), "numpy.Inf": float("inf"), "math.inf": float("inf"),
    "numpy.nan": float("nan"), "math.nan": float("nan"), "numpy.NaN": float("nan"),
    "numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e,
}


class Dead(Exception):
    """Current evaluation cannot continue normally."""


class Unsupported(Exception):
    pass


MAX_DEPTH = 45
MAX_UNROLL = 40

BINOPS = {
    ast.Add: "add",
    ast.Sub: "sub",
    ast.Mult: "mul",
    ast.Div: "div",
    ast.Pow: "pow",
    ast.FloorDiv: "floordiv",
    ast.Mod: "mod",
    ast.MatMult: "matmul",
    ast.BitAnd: "bitand",
    ast.BitOr: "bitor",
    ast.BitXor: "bitxor",
    ast.LShift: "lshift",
    ast.RShift: "rshift",
}
DUNDER = {
    "add": "add",
    "sub": "sub",
    "mul": "mul",
    "div": "truediv",
    "pow": "pow",
    "matmul": "matmul",
    "floordiv": "floordiv",
    "mod": "mod",
}

AU_STOP = {"const", "sym", "fresh", "phi", "hole", "undef", "ref", "func", "class", "idx", "more", "raises", "unknown", "and", "or"}


class Hooks:
    """Per-analysis configuration; all methods may return None (= no info)."""

    def attr(self, it, st, base, name):
        return None

    def mcall(self, it, st, base, name, args, kwargs, node):
        return None

    def call_(self, it, st, ft, args, kwargs, node):
        """Result of calling an opaque value that is no method."""
        return None

    def ext_call(self, it, st, name, args, kwargs, node):
        return None

    def with_(self, it, st, value, enter):
        """A context manager is entered or left."""

    def isinstance_(self, term, clsname):
        return None

    def decide(self, term):
        return None

    def kind(self, term):
        return None

    def impure(self, base, name):
        return False

    def is_list(self, term):
        """An opaque input known to be a list (slices are copies)."""
        return False

    def alias(self, callee, args):
        """Inputs whose memory the result of an opaque call may share."""
        return frozenset()

    def enter_func(self, it, f, args):
        return None


class Frame:
    def __init__(self, func, env):
        self.func = func
        self.env = env
        self.returns = []
        self.loops = []


class Event:
    __slots__ = ("kind", "pc", "facts", "node", "mod", "func", "data", "loops")

    def __init__(self, kind, pc, facts, node, mod, func, data, loops):
        self.kind, self.pc, self.facts = kind, pc, facts
        self.node, self.mod, self.func = node, mod, func
        self.data, self.loops = data, loops

    @property
    def loc(self):
        return f"{self.mod}:{getattr(self.node, 'lineno', '?')} in {self.func}"

    def __repr__(self):
        return f"<{self.kind} {self.loc} {self.data}>"


class Interp:
    au_stop = frozenset()  # further operations that loop joins do not look into

    def __init__(self, program, hooks=None):
        self._kinding = set()
        self.p = program
        self.hooks = hooks or Hooks()
        self.events = []
        self.phis = {}
        self.frames = []
        self.sinks = [[]]
        self.counter = 0
        self.callpath = ()
        self.loopctx = ()
        self.modstack = []
        self.notes = set()
        self.funcs_seen = set()
        self.fresh_sites = {}
        self.fresh_loops = {}
        self.desugared = {}
        self.fresh_elem = {}  # draw in a loop over a sequence -> the element at hand
        self.steps = 0

    # -- utilities ------------------------------------------------------

    def uid(self):
        self.counter += 1
        return self.counter

    def note(self, msg, node=None):
        self.notes.add(f"{msg} @ {self.curmod()}:{getattr(node, 'lineno', '?')}")

    def curmod(self):
        return self.modstack[-1] if self.modstack else "?"

    def curfunc(self):
        return self.frames[-1].func if self.frames else "<module>"

    def site(self, node):
        return (self.callpath, id(node))

    def fresh(self, label, node):
        key = (label, self.site(node))
        n = self.fresh_sites.get(key)
        if n is None:
            n = self.fresh_sites[key] = len(self.fresh_sites)
        self.fresh_loops[n] = tuple("L%d" % k for k in self.loopctx)
        return mk("fresh", label, n)

    def event(self, kind, st, node, **data):
        self.events.append(
            Event(kind, st.pc, dict(st.facts), node, self.curmod(), self.curfunc(), data, self.loopctx)
        )

    def alloc(self, st, obj):
        a = self.uid()
        st.heap[a] = obj
        st.own_h.add(a)
        return Ref(a)

    def obj(self, st, ref):
        return st.heap[ref.addr]

    def decide(self, t, st):
        return decide(t, st.facts, self.hooks.decide)

    def lift(self, v):
        if v is None or isinstance(v, (bool, int, float, complex, str, bytes)) or v is Ellipsis:
            return Val(const(v))
        return v

    # -- value <-> term -------------------------------------------------

    def term(self, v, st, depth=0):
        if isinstance(v, Val):
            return v.term
        if depth > 6:
            return mk("unknown", "deep")
        if isinstance(v, Tup):
            return mk("tuple", *[self.term(x, st, depth + 1) for x in v.items])
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if o is None:
                return mk("ref", str(v.addr))
            if o.kind == "list":
                if o.items is not None:
                    return mk("list", *[self.term(x, st, depth + 1) for x in o.items])
                return o.term
            if o.kind == "dict":
                if o.term is not None:
                    return o.term
                return mk(
                    "dict",
                    *[
                        mk("tuple", self.keyterm(k), self.term(x, st, depth + 1))
                        for k, x in o.items.items()
                    ],
                )
            if o.items is not None:
                return mk("list", *[self.term(x, st, depth + 1) for x in o.items])
            if o.term is not None:
                return o.term
            return mk("ref", str(v.addr), o.cls.qual)
        if isinstance(v, Func):
            return mk("func", v.qual, self.func_id(v, st))
        if isinstance(v, Bound):
            return mk("bound", self.term(v.func, st, depth + 1), self.term(v.self_, st, depth + 1))
        if isinstance(v, Cls):
            return mk("class", v.qual)
        if isinstance(v, Ext):
            return mk("extname", v.name)
        if isinstance(v, Builtin):
            return mk("extname", v.name)
        if isinstance(v, Choice):
            return Ite(v.cond, self.term(v.a, st, depth + 1), self.term(v.b, st, depth + 1))
        if isinstance(v, Mod):
            return mk("extname", v.name)
        return mk("unknown", type(v).__name__, id(v))

    def func_id(self, f, st):
        return id(f)

    def keyterm(self, k):
        return k if isinstance(k, Term) else const(k)

    def provs(self, v, st, depth=0):
        if isinstance(v, Val):
            return v.prov
        if depth > 4:
            return frozenset()
        if isinstance(v, Tup):
            r = frozenset()
            for x in v.items:
                r |= self.provs(x, st, depth + 1)
            return r
        if isinstance(v, Choice):
            return self.provs(v.a, st, depth + 1) | self.provs(v.b, st, depth + 1)
        if isinstance(v, Lazy) and v.kind != "map":
            r = frozenset()
            for x in v.parts:
                r |= self.provs(x, st, depth + 1)
            return r
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if o is not None and o.kind == "list":
                r = o.prov
                for x in o.items or ():
                    r |= self.provs(x, st, depth + 1)
                return r
        return frozenset()

    # -- joins ----------------------------------------------------------

    def au(self, x, y, leaf, memo):
        if x is y:
            return x
        k = (x, y)
        r = memo.get(k)
        if r is not None:
            return r
        if (
            x.op == y.op
            and x.op not in AU_STOP
            and x.op not in self.au_stop
            and len(x.args) == len(y.args)
            and not (x.op == "ite" and x.args[0] is not y.args[0])
        ):
            new = []
            ok = True

            def go(a, b):
                nonlocal ok
                if isinstance(a, Term) and isinstance(b, Term):
                    return self.au(a, b, leaf, memo)
                if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                    return tuple(go(p, q) for p, q in zip(a, b))
                if a == b and type(a) is type(b):
                    return a
                ok = False
                return a

            # check shape first to avoid creating useless leaves
            def shape_ok(a, b):
                if isinstance(a, Term) and isinstance(b, Term):
                    return True
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return len(a) == len(b) and all(shape_ok(p, q) for p, q in zip(a, b))
                return type(a) is type(b) and a == b

            if all(shape_ok(a, b) for a, b in zip(x.args, y.args)):
                new = [go(a, b) for a, b in zip(x.args, y.args)]
                if ok:
                    r = rebuild(x.op, *new)
                    memo[k] = r
                    return r
        r = leaf(x, y)
        memo[k] = r
        return r

    def join_value(self, a, b, sa, sb, out, J):
        """J: join context with .leaf(ta,tb), .memo, .vmemo, .cond, .newaddr()"""
        if a is b:
            return a
        key = (id(a), id(b))
        r = J.vmemo.get(key)
        if r is not None:
            return r[0]
        r = self._join_value(a, b, sa, sb, out, J)
        J.vmemo[key] = (r, a, b)
        return r

    def _join_value(self, a, b, sa, sb, out, J):
        if isinstance(a, Val) and isinstance(b, Val):
            t = self.au(a.term, b.term, J.leaf, J.memo)
            if t is a.term and a.prov >= b.prov:
                return a
            if t is b.term and b.prov >= a.prov:
                return b
            return Val(t, a.prov | b.prov)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.join_value(x, y, sa, sb, out, J) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr == b.addr:
                return a
            oa, ob = sa.heap.get(a.addr), sb.heap.get(b.addr)
            if oa is not None and ob is not None and oa.kind == ob.kind and (
                oa.kind != "inst" or oa.cls is ob.cls
            ):
                addr = J.newaddr()
                ref = Ref(addr)
                J.vmemo[(id(a), id(b))] = (ref, a, b)
                o = self.join_obj(oa, ob, sa, sb, out, J)
                if o is not None:
                    out.heap[addr] = o
                    out.own_h.add(addr)
                    return ref
        if isinstance(a, Bound) and isinstance(b, Bound) and a == b:
            return a
        if isinstance(a, Choice) and isinstance(b, Choice) and a.cond is b.cond:
            return Choice(
                a.cond,
                self.join_value(a.a, b.a, sa, sb, out, J),
                self.join_value(a.b, b.b, sa, sb, out, J),
            )
        if J.cond is not None:
            return Choice(J.cond, a, b) if J.pol else Choice(J.cond, b, a)
        ta, tb = self.term(a, sa), self.term(b, sb)
        if ta is UNDEF:
            return a
        return Val(self.au(ta, tb, J.leaf, J.memo), self.provs(a, sa) | self.provs(b, sb))

    def join_obj(self, oa, ob, sa, sb, out, J):
        if oa is ob:
            return oa
        if oa.kind == "list":
            if oa.items is not None and ob.items is not None and len(oa.items) == len(ob.items):
                return ListObj(
                    [self.join_value(x, y, sa, sb, out, J) for x, y in zip(oa.items, ob.items)],
                    None,
                    oa.prov | ob.prov,
                )
            ta = oa.term if oa.items is None else mk("list", *[self.term(x, sa) for x in oa.items])
            tb = ob.term if ob.items is None else mk("list", *[self.term(x, sb) for x in ob.items])
            return ListObj(None, self.au(ta, tb, J.leaf, J.memo), oa.prov | ob.prov)
        if oa.kind == "dict":
            if oa.term is None and ob.term is None:
                items = {}
                for k in list(oa.items) + [k for k in ob.items if k not in oa.items]:
                    x = oa.items.get(k, Val(UNDEF))
                    y = ob.items.get(k, Val(UNDEF))
                    if oa.default is not None and ob.default is not None:
                        # a key missing from a defaultdict of lists: empty list
                        x = self.dd_missing(x, y, k, sa, sb)
                        y = self.dd_missing(y, x, k, sb, sa)
                    items[k] = self.join_value(x, y, sa, sb, out, J)
                return DictObj(items, oa.default or ob.default)
            return DictObj({}, oa.default, self.fresh("dict", None))
        if oa.cls is not ob.cls:
            return None
        attrs = {}
        for k in list(oa.attrs) + [k for k in ob.attrs if k not in oa.attrs]:
            x = oa.attrs.get(k, Val(UNDEF))
            y = ob.attrs.get(k, Val(UNDEF))
            attrs[k] = self.join_value(x, y, sa, sb, out, J)
        items, term = None, None
        if oa.items is not None and ob.items is not None and len(oa.items) == len(ob.items):
            items = [self.join_value(x, y, sa, sb, out, J) for x, y in zip(oa.items, ob.items)]
        elif oa.items is not None or oa.term is not None:
            f = lambda o, s: o.term if o.items is None else mk("list", *[self.term(x, s) for x in o.items])
            if (oa.items is None and oa.term is None) or (ob.items is None and ob.term is None):
                return None
            term = self.au(f(oa, sa), f(ob, sb), J.leaf, J.memo)
        return Inst(oa.cls, attrs, items, term)

    def dd_missing(self, x, other, k, s, so):
        if isinstance(x, Val) and x.term is UNDEF and isinstance(other, Ref):
            o = so.heap.get(other.addr)
            if o is not None and o.kind == "list":
                a = ("dd", str(k))
                s.heap[a] = ListObj([])
                return Ref(a)
        return x

    def join_states(self, a, b, J):
        out = State()
        out.heap = dict(a.heap)
        for k, ob in b.heap.items():
            oa = a.heap.get(k)
            if oa is None:
                out.heap[k] = ob
        a.own_h = set()
        b.own_h = set()
        a.own_e = set()
        b.own_e = set()
        # environments
        for e in a.envs:
            ea = a.envs[e]
            eb = b.envs.get(e)
            if eb is None:
                out.envs[e] = ea
                continue
            if ea is eb:
                out.envs[e] = ea
                continue
            ne = {}
            for k in sorted(set(ea) | set(eb)):
                x, y = ea.get(k), eb.get(k)
                if x is y:
                    ne[k] = x
                    continue
                if k.startswith("$") and k not in ("$ret", "$val"):
                    ne[k] = x if x is not None else y
                    continue
                if x is None:
                    x = Val(UNDEF)
                if y is None:
                    y = Val(UNDEF)
                ne[k] = self.join_value(x, y, a, b, out, J)
            out.envs[e] = ne
            out.own_e.add(e)
        for e in b.envs:
            if e not in a.envs:
                out.envs[e] = b.envs[e]
        for k in sorted((k for k in a.heap if k in b.heap), key=str):
            oa, ob = a.heap[k], b.heap[k]
            if oa is ob:
                continue
            o = self.join_obj(oa, ob, a, b, out, J)
            if o is None:
                o = oa
                self.note("unjoinable object")
            out.heap[k] = o
            out.own_h.add(k)
        out.facts = {t: p for t, p in a.facts.items() if b.facts.get(t) is p}
        return out

    def merge(self, states):
        """Merge mutually exclusive states along their decision tree."""
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        p = 0
        while all(len(s.pc) > p for s in states) and all(s.pc[p] == states[0].pc[p] for s in states):
            p += 1
        if any(len(s.pc) <= p for s in states) or any(s.pc[p][0] is not states[0].pc[p][0] for s in states):
            # not a clean decision tree: opaque gate
            a = states[0]
            b = self.merge(states[1:])
            q = 0
            while len(a.pc) > q and len(b.pc) > q and a.pc[q] == b.pc[q]:
                q += 1
            f = lambda lits: And(*[x if pol else Not(x) for x, pol in lits])
            ga, gb = f(a.pc[q:]), f(b.pc[q:])
            gate = ga if a.pc[q:] else Not(gb)
            if gate.op == "const":
                gate = mk("unknown", "gate", self.uid())
                self.note("opaque gate")
            pol = True
            if gate.op == "not":
                gate, pol = gate.args[0], False
            J = JoinCtx(self, gate, True)
            pc = a.pc[:q]
            out = self.join_states(a, b, J) if pol else self.join_states(b, a, J)
            out.pc = pc
            c = Or(ga, gb)
            if c.op != "const":
                out.add_lit(c, True)
            return out
        t = states[0].pc[p][0]
        A = self.merge([s for s in states if s.pc[p][1]])
        B = self.merge([s for s in states if not s.pc[p][1]])
        if A is None or B is None:
            return A or B
        pc = A.pc[:p]
        ra, rb = A.pc[p + 1:], B.pc[p + 1:]
        J = JoinCtx(self, t, True)
        out = self.join_states(A, B, J)
        out.pc = pc
        if ra or rb:
            f = lambda lits: And(*[x if pol else Not(x) for x, pol in lits])
            c = Or(And(t, f(ra)), And(Not(t), f(rb)))
            if c is not TRUE and c.op != "const":
                out.add_lit(c, True)
        return out

    # -- branching ------------------------------------------------------

    def branch(self, cond, st):
        """Return (state_if_true, state_if_false); either may be None."""
        d = self.decide(cond, st)
        if d is True:
            return st, None
        if d is False:
            return None, st
        a, b = st.copy(), st.copy()
        c = self.reduce(cond, st)
        a.add_lit(c, True)
        b.add_lit(c, False)
        return a, b

    def reduce(self, t, st):
        """Simplify boolean structure under the facts."""
        d = self.decide(t, st)
        if d is not None:
            return TRUE if d else FALSE
        if t.op == "and":
            return And(*[self.reduce(a, st) for a in t.args])
        if t.op == "or":
            return Or(*[self.reduce(a, st) for a in t.args])
        if t.op == "not":
            return Not(self.reduce(t.args[0], st))
        if t.op == "ite":
            return Ite(self.reduce(t.args[0], st), self.reduce(t.args[1], st), self.reduce(t.args[2], st))
        return t

    def fork_value(self, cond, st, fa, fb):
        """Evaluate fa/fb under cond/not cond and join value into st."""
        a, b = self.branch(cond, st)
        if b is None:
            return fa(st)
        if a is None:
            return fb(st)
        key = "$val"
        res = []
        envid = self.frames[-1].env if self.frames else None
        for s, f in ((a, fa), (b, fb)):
            try:
                v = f(s)
            except Dead:
                continue
            res.append((s, v))
        if not res:
            raise Dead()
        if len(res) == 1:
            st.assign(res[0][0])
            return res[0][1]
        for s, v in res:
            s.envs["$tmp"] = {"$val": v}
        m = self.merge([s for s, _ in res])
        v = m.envs.pop("$tmp")["$val"]
        st.assign(m)
        return v

    def resolve(self, v, st):
        """Resolve Choice / ite values decided by facts."""
        while isinstance(v, Choice):
            d = self.decide(v.cond, st)
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            else:
                return v
        if isinstance(v, Val) and v.term.op == "ite":
            t = v.term
            while t.op == "ite":
                d = self.decide(t.args[0], st)
                if d is True:
                    t = t.args[1]
                elif d is False:
                    t = t.args[2]
                else:
                    break
            if t is not v.term:
                return Val(t, v.prov)
        return v

    def truth(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, Val):
            return Truthy(v.term)
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Choice):
            return Ite(v.cond, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, Ref):
            o = st.heap[v.addr]
            if o.kind == "list":
                if o.items is not None:
                    return TRUE if o.items else FALSE
                return Truthy(o.term)
            if o.kind == "dict":
                return TRUE if o.items else FALSE
            return TRUE
        return TRUE

    # -- statements -----------------------------------------------------

    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            try:
                st = self.exec(s, st)
            except Dead:
                return None
        return st

    def exec(self, s, st):
        self.steps += 1
        if self.steps > 3_000_000:
            raise Unsupported("step limit")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note(f"unsupported statement {type(s).__name__}", s)
            return st
        return m(s, st)

    def x_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def x_Pass(self, s, st):
        return st

    def x_Global(self, s, st):
        return self.x_Nonlocal(s, st)

    def x_Nonlocal(self, s, st):
        e = st.env_w(self.frames[-1].env)
        e["$nonlocal"] = tuple(set(e.get("$nonlocal", ())) | set(s.names))
        return st

    def x_Import(self, s, st):
        for a in s.names:
            if a.name.split(".")[0] == "pymanopt":
                m = self.p.import_module(a.name if a.asname else a.name.split(".")[0])
                if not a.asname:
                    self.p.import_module(a.name)
                self.setname(st, a.asname or "pymanopt", m)
            elif a.asname:
                self.setname(st, a.asname, Ext(a.name))
            else:
                self.setname(st, a.name.split(".")[0], Ext(a.name.split(".")[0]))
        return st

    def x_ImportFrom(self, s, st):
        mod = s.module or ""
        if s.level:
            base = self.p.package_of(self.curmod()).split(".")
            base = base[: len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            if mod.split(".")[0] == "pymanopt":
                v = self.p.import_from(mod, a.name)
            elif mod == "__future__":
                continue
            else:
                v = Ext(mod + "." + a.name)
            self.setname(st, a.asname or a.name, v)
        return st

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def x_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        cur = self.ev(_load(s.target), st)
        rhs = self.ev(s.value, st)
        cur = self.resolve(cur, st)
        if isinstance(cur, Ref) and st.heap[cur.addr].kind == "list" and op == "add":
            self.list_extend(st, cur, rhs, s)
            if not isinstance(s.target, ast.Name):
                self.assign(s.target, cur, st)
            return st
        if isinstance(cur, Ref) and st.heap[cur.addr].kind == "inst":
            f, _ = st.heap[cur.addr].cls.lookup("__i" + DUNDER.get(op, op) + "__")
            if f is not None:
                v = self.call(Bound(f, cur), [rhs], {}, st, s)
                self.assign(s.target, v, st)
                return st
        v = self.binop(op, cur, rhs, st, s)
        if isinstance(cur, Val) and isinstance(v, Val):
            kind = self.kindof(cur.term)
            self.event("augassign", st, s, term=cur.term, prov=cur.prov, vkind=kind, new=v.term)
            if kind != "scalar" and (cur.prov or kind == "array"):
                nv = Val(v.term, cur.prov)
                if kind == "array":
                    self.replace_all(st, cur, nv)
                self.assign(s.target, nv, st)
                return st
        self.assign(s.target, v, st)
        return st

    def kindof(self, t):
        if t.op == "const":
            return "scalar"
        if t.op in ("lt", "le", "eq", "not", "and", "or", "len", "idx"):
            return "scalar"
        k = self.hooks.kind(t)
        if k:
            return k
        if t.op in ("add", "mul", "div", "pow", "neg", "ite"):
            args = t.args[1:] if t.op == "ite" else t.args
            ks = [self.kindof(a) for a in args]
            if any(k == "array" for k in ks):
                return "array"
            if all(k == "scalar" for k in ks):
                return "scalar"
        if t.op == "npcall":
            if t.args[0] in ("float", "int", "min", "max", "len"):
                return "scalar"
            if t.args[0] in ("zeros", "ones", "eye", "zeros_like", "ones_like", "argsort", "random.randn", "random.normal"):
                return "array"
        if t.op == "phi":
            info = self.phis.get(t)
            if info:
                if t in self._kinding:
                    return None
                self._kinding.add(t)
                try:
                    return self.kindof(info["entry"]) or self.kindof(info["back"])
                finally:
                    self._kinding.discard(t)
        if t.op in ("map", "store", "gather"):
            return "array"
        if t.op == "select":
            k = self.elemkind(t.args[0])
            if k:
                return k
        return None

    def elemkind(self, t):
        """Kind of the elements of a sequence term."""
        if t.op == "map":
            return self.kindof(t.args[0])
        if t.op == "store":
            return self.kindof(t.args[2]) or self.elemkind(t.args[0])
        if t.op in ("gather", "slice", "append"):
            return self.elemkind(t.args[0])
        if t.op == "ite":
            return self.elemkind(t.args[1]) or self.elemkind(t.args[2])
        if t.op == "phi":
            info = self.phis.get(t)
            if info and t not in self._kinding:
                self._kinding.add(t)
                try:
                    return self.elemkind(info["entry"]) or self.elemkind(info["back"])
                finally:
                    self._kinding.discard(t)
        return None

    def replace_all(self, st, old, new):
        for e in list(st.envs):
            d = st.envs[e]
            for k, v in d.items():
                if v is old:
                    st.env_w(e)[k] = new
                elif isinstance(v, Tup) and any(x is old for x in v.items):
                    st.env_w(e)[k] = Tup([new if x is old else x for x in v.items])
        for a in list(st.heap):
            o = st.heap[a]
            if o.kind == "inst":
                for k, v in list(o.attrs.items()):
                    if v is old:
                        st.obj_w(a).attrs[k] = new
            if o.kind in ("list", "inst") and o.items is not None:
                if any(x is old for x in o.items):
                    o = st.obj_w(a)
                    o.items = [new if x is old else x for x in o.items]
            if o.kind == "dict":
                for k, v in list(o.items.items()):
                    if v is old:
                        st.obj_w(a).items[k] = new

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else Val(NONE)
        fr = self.frames[-1]
        st.env_w(fr.env)["$ret"] = v
        self.event("return", st, s, value=v)
        fr.returns.append(st)
        return None

    def x_Break(self, s, st):
        self.frames[-1].loops[-1]["breaks"].append(st)
        return None

    def x_Continue(self, s, st):
        self.frames[-1].loops[-1]["continues"].append(st)
        return None

    def x_Raise(self, s, st):
        exc = self.ev(s.exc, st) if s.exc is not None else Ext("reraise")
        name = self.exc_name(exc, st)
        self.event("raise", st, s, exc=name)
        self.sinks[-1].append((name, st, exc))
        return None

    def exc_name(self, exc, st):
        if isinstance(exc, Ext):
            return exc.name
        if isinstance(exc, Val):
            if exc.term.op == "ext":
                return exc.term.args[0]
            return T.show(exc.term)[:30]
        if isinstance(exc, Ref):
            return st.heap[exc.addr].cls.name
        if isinstance(exc, Cls):
            return exc.name
        return "?"

    def x_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        a, b = self.branch(c, st)
        if b is not None:
            self.event("raise", b, s, exc="AssertionError")
            self.sinks[-1].append(("AssertionError", b if b is not st else b.copy(), Ext("AssertionError")))
        return a

    def x_Delete(self, s, st):
        return st

    def x_If(self, s, st):
        c = self.cond(s.test, st)
        a, b = self.branch(c, st)
        outs = []
        if a is not None:
            r = self.exec_block(s.body, a)
            if r is not None:
                outs.append(r)
        if b is not None:
            r = self.exec_block(s.orelse, b)
            if r is not None:
                outs.append(r)
        return self.merge(outs)

    def cond(self, node, st):
        return self.truth(self.ev(node, st), st)

    def x_With(self, s, st):
        entered = []
        for item in s.items:
            v = self.ev(item.context_expr, st)
            self.event("with", st, s, value=v)
            self.hooks.with_(self, st, v, True)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st)
            entered.append(v)
        try:
            return self.exec_block(s.body, st)
        finally:
            for v in reversed(entered):
                self.hooks.with_(self, st, v, False)

    def x_Try(self, s, st):
        entry = st.copy()
        sink = []
        self.sinks.append(sink)
        ctxkey = self.site(s)
        try:
            implicit = []
            for h in s.handlers:
                names = self.handler_names(h, st)
                if self.may_implicit(names, s.body):
                    implicit.append((h, names))
            work = st
            hstates = []
            for h, names in implicit:
                t = mk("raises", "/".join(names), len(self.fresh_sites_key(ctxkey)), self._siteno(ctxkey))
                if self.decide(t, work) is not None:
                    work2 = work.copy()
                else:
                    work2 = work.copy()
                hs = work.copy()
                hs.add_lit(t, True)
                work2.add_lit(t, False)
                work = work2
                hstates.append((h, hs, "/".join(names)))
            try:
                out = self.exec_block(s.body, work)
            except Dead:
                out = None
        finally:
            self.sinks.pop()
        outs = []
        if out is not None:
            if s.orelse:
                out = self.exec_block(s.orelse, out)
            if out is not None:
                outs.append(out)
        for h, hs, nm in hstates:
            if h.name:
                self.setname(hs, h.name, Val(mk("fresh", "exc", self._siteno(ctxkey))))
            r = self.exec_block(h.body, hs)
            if r is not None:
                outs.append(r)
        for name, rst, exc in sink:
            for h in s.handlers:
                names = self.handler_names(h, st)
                if self.exc_match(name, names):
                    if h.name:
                        self.setname(rst, h.name, exc)
                    r = self.exec_block(h.body, rst)
                    if r is not None:
                        outs.append(r)
                    break
            else:
                self.sinks[-1].append((name, rst, exc))
        res = self.merge(outs) if outs else None
        if s.finalbody and res is not None:
            res = self.exec_block(s.finalbody, res)
        return res

    def fresh_sites_key(self, k):
        return ()

    def _siteno(self, key):
        k = ("site", key)
        n = self.fresh_sites.get(k)
        if n is None:
            n = self.fresh_sites[k] = len(self.fresh_sites)
        return n

    def handler_names(self, h, st):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def may_implicit(self, names, body):
        if all(n in ("ImportError", "ModuleNotFoundError", "KeyError") for n in names):
            return False
        return True

    EXC_PARENT = {
        "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
        "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
        "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
        "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
        "AssertionError": "Exception", "Exception": "BaseException", "ImportError": "Exception",
    }

    def exc_match(self, name, names):
        n = name
        while n is not None:
            if n in names:
                return True
            n = self.EXC_PARENT.get(n)
        return "BaseException" in names

    def x_FunctionDef(self, s, st):
        f = self.make_func(s, st)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st)
            v = self.call(dv, [v], {}, st, d)
        self.setname(st, s.name, v)
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, st):
        env = self.frames[-1].env if self.frames else None
        if env is not None and env in st.envs:
            st.env_w(env)["$captured"] = True
        defaults = [self.ev(d, st) for d in s.args.defaults]
        kwd = [self.ev(d, st) if d is not None else None for d in s.args.kw_defaults]
        name = getattr(s, "name", "<lambda>")
        cur = self.frames[-1].func if self.frames else ""
        if cur == "<module>":
            cur = ""
        q = (cur + "." if cur else "") + name
        return Func(name, s, env, self.curmod(), defaults, kwd, q)

    def x_ClassDef(self, s, st):
        bases = []
        for b in s.bases:
            v = self.ev(b, st)
            bases.append(v if isinstance(v, (Cls, Ext)) else Ext(getattr(v, "name", "?")))
        modname = self.curmod()
        env = ("cls", self.uid())
        outer = self.frames[-1].env
        st.envs[env] = {"$parent": outer}
        st.own_e.add(env)
        fr = Frame(s.name, env)
        fr.isclass = True
        self.frames.append(fr)
        try:
            self.exec_block(s.body, st)
        finally:
            self.frames.pop()
        ns = {k: v for k, v in st.envs[env].items() if not k.startswith("$")}
        cls = Cls(s.name, f"{modname}.{s.name}", bases, ns, modname)
        cls.node = s

        def tag(v):
            if isinstance(v, Func):
                # closures created by decorators keep their own cls
                if v.cls is None:
                    v.cls = cls
                w = v.wrapped
                while isinstance(w, Func):
                    if w.cls is None:
                        w.cls = cls
                    w = w.wrapped
                if v.env is not None and v.env == env:
                    v.env = outer
                if v.env is not None and v.env in st.envs:
                    for x in st.envs[v.env].values():
                        if isinstance(x, Func) and x.cls is None and x.env == env:
                            x.cls = cls
                            x.env = outer
            elif isinstance(v, Prop):
                tag(v.fget)
                if v.fset:
                    tag(v.fset)
            elif isinstance(v, (StaticM, ClassM)):
                tag(v.f)

        for v in ns.values():
            tag(v)
        v = cls
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st)
            v = self.call(dv, [v], {}, st, d)
        self.setname(st, s.name, v)
        return st

    # -- loops ----------------------------------------------------------

    def x_While(self, s, st):
        return self.loop(s, st, None)

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        it = self.resolve(it, st)
        if isinstance(it, Val) and it.term.op == "count":
            return self.count_loop(s, it.term, st)
        items = self.concrete_iter(it, st)
        if items is not None and len(items) <= MAX_UNROLL:
            fr = self.frames[-1]
            ctx = {"breaks": [], "continues": []}
            fr.loops.append(ctx)
            cur = st
            try:
                for v in items:
                    if cur is None:
                        break
                    try:
                        self.assign(s.target, v, cur)
                    except Dead:
                        cur = None
                        break
                    r = self.exec_block(s.body, cur)
                    outs = ([r] if r is not None else []) + ctx["continues"]
                    ctx["continues"] = []
                    cur = self.merge(outs)
            finally:
                fr.loops.pop()
            if cur is not None and s.orelse:
                cur = self.exec_block(s.orelse, cur)
            outs = ([cur] if cur is not None else []) + ctx["breaks"]
            return self.merge(outs)
        return self.loop(s, st, it)

    def count_loop(self, s, t, st):
        """for x in itertools.count(a, b): the endless loop with a counter."""
        self.setname(st, "_count", Val(Arith("sub", t.args[0], t.args[1])))
        self.setname(st, "_step", Val(t.args[1]))
        w = self.desugared.get(id(s))
        if w is None:
            name = lambda i, c: ast.Name(id=i, ctx=c)
            inc = ast.Assign(targets=[name("_count", ast.Store())], value=ast.BinOp(left=name("_count", ast.Load()), op=ast.Add(), right=name("_step", ast.Load())))
            w = ast.While(test=ast.Constant(value=True), body=[inc, ast.Assign(targets=[s.target], value=name("_count", ast.Load()))] + s.body, orelse=[])
            ast.copy_location(w, s)
            for x in (inc, w.body[1]):
                ast.copy_location(x, s)
                ast.fix_missing_locations(x)
            self.desugared[id(s)] = w
        return self.loop(w, st, None)

    def loop(self, s, st, it):
        ctx = self.loopctx + ((self._siteno((self.callpath, id(s)))),)
        name = (self.curfunc().split(".")[-1], getattr(s, "lineno", 0))
        lid = ("L%d" % ctx[-1],)
        fr = self.frames[-1]
        is_for = it is not None
        entry = st
        # header candidate = entry
        header = entry.copy()
        mark_ev = len(self.events)
        mark_ret = len(fr.returns)
        mark_sink = len(self.sinks[-1])
        more = mk("more", lid[0])
        idx = mk("idx", lid[0])
        prev_fp = None
        result = None
        saved_ctx = self.loopctx
        self.loopctx = ctx
        memo_lists = []
        coarse = False
        try:
            for rnd in range(12):
                del self.events[mark_ev:]
                del fr.returns[mark_ret:]
                del self.sinks[-1][mark_sink:]
                lc = {"breaks": [], "continues": []}
                fr.loops.append(lc)
                h = header.copy()
                try:
                    exit_state = None
                    if is_for:
                        exit_state = h.copy()
                        exit_state.add_lit(more, False)
                        body = h
                        body.add_lit(more, True)
                        try:
                            elem = self.iter_elem(it, idx, body, s)
                            self.assign(s.target, elem, body)
                        except Dead:
                            body = None
                    else:
                        try:
                            c = self.cond(s.test, h)
                            body, exit_state = self.branch(c, h)
                        except Dead:
                            body, exit_state = None, None
                    back = self.exec_block(s.body, body) if body is not None else None
                    outs = ([back] if back is not None else []) + lc["continues"]
                finally:
                    fr.loops.pop()
                back = self.merge(outs) if outs else None
                if back is None:
                    result = (exit_state, lc["breaks"], header)
                    break
                # compute new header by anti-unifying entry and back edge
                J = LoopCtx(self, lid[0], header, coarse)
                base = entry.copy()
                nh = self.join_states(base, back, J)
                nh.envs = {e: v for e, v in nh.envs.items() if e in entry.envs}
                nh.heap = {k: v for k, v in nh.heap.items() if k in entry.heap or (isinstance(k, tuple) and k[:2] == ("hdr", lid[0])) or self.reachable_extra(k, nh)}
                nh.pc = entry.pc
                nh.facts = dict(entry.facts)
                fp = self.fingerprint(entry, nh)
                for t in [t for t in self.phis if t.args[0] == lid[0]]:
                    del self.phis[t]
                if fp == prev_fp:
                    result = (exit_state, lc["breaks"], header)
                    for t, info in J.info.items():
                        self.phis[t] = info
                    break
                prev_fp = fp
                for t, info in J.info.items():
                    self.phis[t] = info
                header = nh
                if rnd == 8:
                    coarse = True
            else:
                self.note("loop did not stabilise", s)
                result = (exit_state, lc["breaks"], header)
            exit_state, breaks, header = result
            if is_for and back is not None:
                self.summarize_for(lid[0], it, idx, entry, exit_state, header)
            self.event("loop", entry, s, lid=lid[0], header=header, back=back, is_for=is_for,
                       iter=None if it is None else self.safe_iter_term(it, entry), breaks=list(breaks), exit=exit_state)
        finally:
            self.loopctx = saved_ctx
        if exit_state is not None and s.orelse:
            exit_state = self.exec_block(s.orelse, exit_state)
        outs = ([exit_state] if exit_state is not None else []) + breaks
        return self.merge(outs)

    def reachable_extra(self, k, nh):
        return True

    def safe_iter_term(self, it, st):
        try:
            return it.term(self, st) if isinstance(it, Lazy) else self.seq_term(it, st)
        except Exception:
            return None

    def fingerprint(self, entry, h):
        out = []
        for e in h.envs:
            d, d0 = h.envs[e], entry.envs.get(e)
            if d is d0:
                continue
            for k in sorted(d):
                if k.startswith("$"):
                    continue
                v = d[k]
                if d0 is not None and d0.get(k) is v:
                    continue
                out.append((e, k, self.fpv(v, h)))
        for a in sorted((a for a in h.heap if a in entry.heap), key=str):
            if h.heap[a] is entry.heap[a]:
                continue
            o = h.heap[a]
            if o.kind == "inst":
                out.append((a, tuple((k, self.fpv(v, h)) for k, v in sorted(o.attrs.items()))))
            elif o.kind == "list":
                out.append((a, self.fpv(Ref(a), h)))
            else:
                out.append((a, tuple((str(k), self.fpv(v, h)) for k, v in o.items.items()), o.term))
        return out

    def fpv(self, v, st, depth=0):
        if isinstance(v, Ref) and depth < 4:
            o = st.heap.get(v.addr)
            if o is None:
                return str(v.addr)
            if o.kind == "inst":
                return ("inst", o.cls.qual, tuple((k, self.fpv(x, st, depth + 1)) for k, x in sorted(o.attrs.items())))
            if o.kind == "dict":
                return ("dict", tuple((str(k), self.fpv(x, st, depth + 1)) for k, x in o.items.items()))
        if isinstance(v, Tup):
            return tuple(self.fpv(x, st, depth) for x in v.items)
        if isinstance(v, (Func, Bound)):
            return ("func", getattr(v, "qual", None) or getattr(v.func, "qual", "?"))
        return self.term(v, st)

    def summarize_for(self, lid, it, idx, entry, exit_state, header):
        """Replace accumulation phis by closed forms in the loop exit state."""
        if exit_state is None:
            return
        try:
            while isinstance(it, Lazy) and it.kind == "enumerate" and len(it.parts) == 1:
                it = it.parts[0]
            S = it.term(self, entry) if isinstance(it, Lazy) else self.seq_term(it, entry)
        except Exception:
            return
        own = {t for t in self.phis if t.args[0] == lid}
        if not own:
            return
        sel = Select(S, idx)

        def inside(f):
            return f.op == "fresh" and lid in self.fresh_loops.get(f.args[1], ())

        def per_element(f):
            return f.op == "fresh" and len(f.args) == 2 and self.fresh_loops.get(f.args[1], ())[-1:] == (lid,)

        def loop_free(t):
            return not contains(t, lambda x: x in own or (inside(x) and not per_element(x)))

        m = {}
        for t in sorted(own, key=lambda t: t.tid):
            info = self.phis[t]
            e, b = info["entry"], info["back"]
            if b.op == "append" and b.args[0] is t and loop_free(b.args[1]):
                body = self.abstract_elem(b.args[1], S, sel, idx)
                if body is None:
                    continue
                # one draw per element
                for f in list(subterms(body)):
                    if per_element(f):
                        self.fresh_elem[f.args[1]] = sel
                        body = subst(body, {f: mk("fresh", f.args[0], f.args[1], hole())})
                mp = Map(body, S)
                if e is mk("list"):
                    m[t] = mp
                else:
                    m[t] = mk("concat", e, mp)
            elif b.op == "add" and (b.args[0] is t or b.args[1] is t):
                x = b.args[1] if b.args[0] is t else b.args[0]
                if not loop_free(x) or contains(x, per_element):
                    continue
                body = self.abstract_elem(x, S, sel, idx)
                if body is None:
                    continue
                if body is not None and not contains(body, lambda y: y is hole()):
                    tot = Arith("mul", body, Len(S))
                    m[t] = Arith("add", e, tot)
                else:
                    m[t] = Arith("add", e, mk("npcall", "sum", (Map(body, S),), ()))
        if not m:
            return
        memo = {}
        for env in list(exit_state.envs):
            for k, v in list(exit_state.envs[env].items()):
                if isinstance(v, Val):
                    t = subst(v.term, m, memo)
                    if t is not v.term:
                        exit_state.env_w(env)[k] = Val(t, v.prov)
        for a in list(exit_state.heap):
            o = exit_state.heap[a]
            if o.kind == "list" and o.items is None and o.term is not None:
                t = subst(o.term, m, memo)
                if t is not o.term:
                    exit_state.obj_w(a).term = t
            elif o.kind == "inst":
                for k, v in list(o.attrs.items()):
                    if isinstance(v, Val):
                        t = subst(v.term, m, memo)
                        if t is not v.term:
                            exit_state.obj_w(a).attrs[k] = Val(t, v.prov)

    def abstract_elem(self, t, S, sel, idx):
        tmp = mk("hole", "e")
        b = subst(t, {sel: tmp}) if sel is not idx else t
        if contains(b, lambda x: x is idx):
            if contains(b, lambda x: x is tmp):
                if S.op in ("enumerate", "zip"):
                    return None
                return None
            # purely index based
            if S.op == "range" and S.args[0] is ZERO and S.args[2] is ONE:
                return subst(b, {idx: hole()})
            # rewrite over range(len(S)) is not expressible as Map over S
            if S.op in ("enumerate", "zip"):
                comps = sel.args
                m = {}
                for i, c in enumerate(comps):
                    m[c] = mk("select", hole(), const(i))
                b = subst(t, m)
                if contains(b, lambda x: x is idx):
                    return None
                return b
            return None
        return subst(b, {tmp: hole()})

    def seq_term(self, it, st):
        it = self.resolve(it, st)
        if isinstance(it, Val):
            return it.term
        return self.term(it, st)

    def iter_elem(self, it, idx, st, node):
        if isinstance(it, Val):
            t = Select(it.term, idx)
            return self.unpack_term(t, it.prov)
        if isinstance(it, Ref):
            o = st.heap[it.addr]
            if o.kind in ("list", "inst"):
                base = self.term(it, st)
                t = Select(base, idx)
                return self.unpack_term(t, self.provs(it, st))
            if o.kind == "dict":
                return Val(Select(mk("keys", self.term(it, st)), idx))
        if isinstance(it, Lazy):
            return it.elem(self, idx, st, node)
        return Val(Select(self.term(it, st), idx), self.provs(it, st))

    def unpack_term(self, t, prov=frozenset()):
        if t.op == "tuple":
            return Tup([self.unpack_term(a, prov) for a in t.args])
        return Val(t, prov)

    def concrete_iter(self, it, st):
        it = self.resolve(it, st)
        if isinstance(it, Tup):
            return list(it.items)
        if isinstance(it, Ref):
            o = st.heap[it.addr]
            if o.kind == "list" and o.items is not None:
                return list(o.items)
            if o.kind == "inst" and o.items is not None:
                return list(o.items)
            if o.kind == "dict" and o.term is None:
                return [Val(self.keyterm(k)) for k in o.items]
            return None
        if isinstance(it, Lazy):
            return it.concrete(self, st)
        if isinstance(it, Val):
            t = it.term
            if t.op in ("tuple", "list"):
                return [self.unpack_term(a, it.prov) for a in t.args]
            if t.op == "range" and all(is_num(a) for a in t.args):
                r = range(*[a.args[0] for a in t.args])
                if len(r) <= MAX_UNROLL:
                    return [Val(const(i)) for i in r]
            if t.op == "const" and isinstance(t.args[0], str):
                return [Val(const(c)) for c in t.args[0]]
            n = Len(t)
            if is_num(n) and n.args[0] <= MAX_UNROLL and t.op != "len":
                return [self.unpack_term(Select(t, const(i)), it.prov) for i in range(n.args[0])]
        return None

    # -- names & assignment ----------------------------------------------

    def setname(self, st, name, v):
        fr = self.frames[-1]
        env = st.envs[fr.env]
        if name in env.get("$nonlocal", ()):
            e = env.get("$parent")
            while e is not None and e in st.envs:
                if name in st.envs[e]:
                    st.env_w(e)[name] = v
                    return
                e = st.envs[e].get("$parent")
        st.env_w(fr.env)[name] = v

    def lookup(self, st, name, node):
        e = self.frames[-1].env
        while e is not None:
            d = st.envs.get(e)
            if d is None:
                break
            if name in d:
                return d[name]
            e = d.get("$parent")
        b = self.p.builtin(name)
        if b is not None:
            return b
        self.note(f"unresolved name {name}", node)
        return Val(mk("unknown", "name:" + name))

    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            self.setname(st, target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.assign_seq(target.elts, v, st)
        elif isinstance(target, ast.Attribute):
            base = self.ev(target.value, st)
            self.setattr(base, target.attr, v, st, target)
        elif isinstance(target, ast.Subscript):
            self.setitem(target, v, st)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st)

    def assign_seq(self, elts, v, st):
        v = self.resolve(v, st)
        items = self.concrete_iter(v, st)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is None:
            if isinstance(v, Choice):
                a = self.concrete_iter(v.a, st)
                b = self.concrete_iter(v.b, st)
                if a is not None and b is not None and len(a) == len(b):
                    items = [x if x is y else Choice(v.cond, x, y) for x, y in zip(a, b)]
                    items = [self.norm_choice(x, st) for x in items]
            if items is None:
                t = self.term(v, st)
                pr = self.provs(v, st)
                n = len(elts)
                if not star:
                    items = [Val(Select(t, const(i)), pr) for i in range(n)]
                else:
                    k = star[0]
                    after = n - k - 1
                    for i in range(k):
                        self.assign(elts[i], Val(Select(t, const(i)), pr), st)
                    self.assign(
                        elts[k],
                        self.alloc(st, ListObj(None, Slice(t, const(k) if k else NONE, const(-after) if after else NONE, NONE), pr)),
                        st,
                    )
                    for i in range(after):
                        self.assign(elts[k + 1 + i], Val(Select(t, const(-after + i)), pr), st)
                    return
        if not star:
            if len(items) != len(elts):
                self.event("raise", st, elts[0], exc="ValueError")
                self.sinks[-1].append(("ValueError", st.copy(), Ext("ValueError")))
                raise Dead()
            for e, x in zip(elts, items):
                self.assign(e, x, st)
        else:
            k = star[0]
            after = len(elts) - k - 1
            mid = items[k: len(items) - after]
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, st)
            self.assign(elts[k], self.alloc(st, ListObj(list(mid))), st)
            for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                self.assign(e, x, st)

    def norm_choice(self, v, st):
        if isinstance(v, Choice) and isinstance(v.a, Val) and isinstance(v.b, Val):
            memo = {}
            return Val(self.au(v.a.term, v.b.term, lambda x, y: Ite(v.cond, x, y), memo), v.a.prov | v.b.prov)
        return v

    def setattr(self, base, name, v, st, node, raw=False):
        base = self.resolve(base, st)
        if isinstance(base, Ref):
            o = st.heap[base.addr]
            if o.kind == "inst":
                if not raw:
                    f, c = o.cls.lookup("__setattr__")
                    if f is not None:
                        self.call(Bound(f, base), [Val(const(name)), v], {}, st, node)
                        return
                    pr, c = o.cls.lookup(name)
                    if isinstance(pr, Prop):
                        if pr.fset is not None:
                            self.call(Bound(pr.fset, base), [v], {}, st, node)
                            return
                        self.event("raise", st, node, exc="AttributeError")
                        self.sinks[-1].append(("AttributeError", st.copy(), Ext("AttributeError")))
                        raise Dead()
                old = o.attrs.get(name)
                st.obj_w(base.addr).attrs[name] = v
                self.event("setattr", st, node, addr=base.addr, cls=o.cls, name=name, value=v, old=old)
                return
        if isinstance(base, Cls):
            base.ns[name] = v
            return
        if isinstance(base, Choice):
            def f(s, b):
                self.setattr(b, name, v, s, node, raw)
                return Val(NONE)
            self.fork_value(base.cond, st, lambda s: f(s, base.a), lambda s: f(s, base.b))
            return
        if isinstance(base, Val):
            self.event("setattr_opaque", st, node, term=base.term, prov=base.prov, name=name, value=v)
            return
        if isinstance(base, Func):
            return
        self.event("setattr_opaque", st, node, term=self.term(base, st), prov=frozenset(), name=name, value=v)

    def setitem(self, target, v, st):
        base = self.resolve(self.ev(target.value, st), st)
        idx = self.ev(target.slice, st)
        self.do_setitem(base, idx, v, st, target)

    def do_setitem(self, base, idx, v, st, node):
        if isinstance(base, Choice):
            def f(s, b):
                self.do_setitem(b, idx, v, s, node)
                return Val(NONE)
            self.fork_value(base.cond, st, lambda s: f(s, base.a), lambda s: f(s, base.b))
            return
        it = self.term(idx, st)
        vt = self.term(v, st)
        if isinstance(base, Ref):
            o = st.heap[base.addr]
            if o.kind == "inst":
                f, _ = o.cls.lookup("__setitem__")
                if f is not None:
                    self.call(Bound(f, base), [idx, v], {}, st, node)
                    return
            if o.kind in ("list", "inst"):
                prov = o.prov if o.kind == "list" else frozenset()
                self.event("mutate", st, node, how="setitem", prov=prov, term=self.term(base, st), idx=it, value=vt, addr=base.addr)
                o = st.obj_w(base.addr)
                if o.items is not None and it.op == "const" and isinstance(it.args[0], int) and -len(o.items) <= it.args[0] < len(o.items):
                    o.items[it.args[0]] = v
                    return
                cur = self.term(base, st)
                o.items = None
                o.term = Store(cur, it, vt)
                if o.kind == "list":
                    o.prov = o.prov | elemprov(self.provs(v, st))
                return
            if o.kind == "dict":
                self.event("mutate", st, node, how="setitem", prov=frozenset(), term=mk("ref", str(base.addr)), idx=it, value=vt, addr=base.addr)
                o = st.obj_w(base.addr)
                key = it.args[0] if it.op == "const" else it
                o.items[key] = v
                return
        if isinstance(base, Val):
            self.event("mutate", st, node, how="setitem", prov=base.prov, term=base.term, idx=it, value=vt)
            simple = it.op in ("const", "idx", "sym", "add", "select", "phi", "fresh") and not self.complex_index(it)
            if simple:
                nt = Store(base.term, it, vt)
            else:
                nt = mk("setitem", base.term, it, vt)
            self.replace_all(st, base, Val(nt, base.prov))
            if isinstance(node, ast.Subscript) and not isinstance(node.value, (ast.Name, ast.Attribute)):
                self.note("store through temporary", node)
            return
        self.event("mutate", st, node, how="setitem", prov=self.provs(base, st), term=self.term(base, st), idx=it, value=vt)

    def complex_index(self, it):
        return it.op in ("tuple", "slice_obj", "list", "lt", "le", "eq", "and", "or", "not")

    # -- expressions ----------------------------------------------------

    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note(f"unsupported expression {type(n).__name__}", n)
            return Val(mk("unknown", type(n).__name__, self._siteno(self.site(n))))
        return m(n, st)

    def e_Constant(self, n, st):
        return Val(const(n.value))

    def e_Name(self, n, st):
        v = self.lookup(st, n.id, n)
        v = self.resolve(v, st)
        if isinstance(v, Val) and v.term is UNDEF:
            self.event("undef", st, n, name=n.id)
        return v

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Attribute(self, n, st):
        base = self.ev(n.value, st)
        return self.getattr(base, n.attr, st, n)

    def e_Tuple(self, n, st):
        return Tup(self.ev_list(n.elts, st))

    def e_List(self, n, st):
        items = self.ev_list(n.elts, st)
        return self.alloc(st, ListObj(items))

    def e_Set(self, n, st):
        return self.alloc(st, ListObj(self.ev_list(n.elts, st), iset=True))

    def ev_list(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                items = self.concrete_iter(v, st)
                if items is None:
                    out.append(StarVal(self.seq_term(v, st), self.provs(v, st)))
                    self.note("symbolic star in display", e)
                    out[-1] = Val(mk("star", self.seq_term(v, st)))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(e, st))
        return out

    def e_Dict(self, n, st):
        d = DictObj()
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, st)
                if isinstance(x, Ref) and st.heap[x.addr].kind == "dict":
                    d.items.update(st.heap[x.addr].items)
                continue
            kt = self.term(self.ev(k, st), st)
            d.items[kt.args[0] if kt.op == "const" else kt] = self.ev(v, st)
        return self.alloc(st, d)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t = self.term(self.ev(v.value, st), st)
                spec = NONE
                if v.format_spec is not None:
                    spec = self.term(self.ev(v.format_spec, st), st)
                if t.op == "const" and isinstance(t.args[0], (str, int)) and spec is NONE:
                    parts.append(const(str(t.args[0])))
                else:
                    parts.append(mk("fmt", t, spec))
        if all(is_const(p) for p in parts):
            return Val(const("".join(p.args[0] for p in parts)))
        return Val(mk("fstr", *parts))

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        return self.make_func(n, st)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        return self.fork_value(c, st, lambda s: self.ev(n.body, s), lambda s: self.ev(n.orelse, s))

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(vals, s):
            v = self.ev(vals[0], s)
            if len(vals) == 1:
                return v
            c = self.truth(v, s)
            if isand:
                return self.fork_value(c, s, lambda s2: go(vals[1:], s2), lambda s2: self.bool_keep(v, False, s2))
            return self.fork_value(c, s, lambda s2: self.bool_keep(v, True, s2), lambda s2: go(vals[1:], s2))

        return go(n.values, st)

    def bool_keep(self, v, pol, st):
        if isinstance(v, Val) and is_boolean(v.term):
            return Val(TRUE if pol else FALSE)
        return v

    def e_UnaryOp(self, n, st):
        v = self.resolve(self.ev(n.operand, st), st)
        if isinstance(n.op, ast.Not):
            return Val(Not(self.truth(v, st)))
        if isinstance(n.op, ast.USub):
            if isinstance(v, Ref):
                o = st.heap[v.addr]
                if o.kind == "inst":
                    f, _ = o.cls.lookup("__neg__")
                    if f is not None:
                        return self.call(Bound(f, v), [], {}, st, n)
            return Val(Neg(self.term(v, st)))
        if isinstance(n.op, ast.UAdd):
            return v
        t = self.term(v, st)
        if is_boolean(t):
            return Val(Not(t))
        return Val(mk("invert", t))

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(BINOPS[type(n.op)], a, b, st, n)

    def binop(self, op, a, b, st, node):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(a, Choice):
            return self.fork_value(a.cond, st, lambda s: self.binop(op, a.a, b, s, node), lambda s: self.binop(op, a.b, b, s, node))
        if isinstance(b, Choice):
            return self.fork_value(b.cond, st, lambda s: self.binop(op, a, b.a, s, node), lambda s: self.binop(op, a, b.b, s, node))
        d = DUNDER.get(op, op)
        if isinstance(a, Ref) and st.heap[a.addr].kind == "inst":
            f, _ = st.heap[a.addr].cls.lookup(f"__{d}__")
            if f is not None:
                return self.call(Bound(f, a), [b], {}, st, node)
        if isinstance(b, Ref) and st.heap[b.addr].kind == "inst":
            f, _ = st.heap[b.addr].cls.lookup(f"__r{d}__")
            if f is not None:
                return self.call(Bound(f, b), [a], {}, st, node)
        if op == "add":
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref):
                oa, ob = st.heap[a.addr], st.heap[b.addr]
                if oa.kind == "list" and ob.kind == "list":
                    if oa.items is not None and ob.items is not None:
                        return self.alloc(st, ListObj(oa.items + ob.items, None, oa.prov | ob.prov))
                    return self.alloc(st, ListObj(None, mk("concat", self.term(a, st), self.term(b, st)), oa.prov | ob.prov))
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Val) and y.term.op == "const" and isinstance(y.term.args[0], int):
                    k = y.term.args[0]
                    if isinstance(x, Tup):
                        return Tup(x.items * k)
                    if isinstance(x, Ref) and st.heap[x.addr].kind == "list" and st.heap[x.addr].items is not None:
                        return self.alloc(st, ListObj(st.heap[x.addr].items * k))
                if isinstance(x, Ref) and st.heap[x.addr].kind == "list" and isinstance(y, Val):
                    o = st.heap[x.addr]
                    if o.items is not None and len(o.items) == 1:
                        return self.alloc(st, ListObj(None, Map(self.term(o.items[0], st), mk("range", ZERO, y.term, ONE))))
        ta, tb = self.term(a, st), self.term(b, st)
        if ta.op == "const" and tb.op == "const" and isinstance(ta.args[0], str):
            try:
                if op == "add":
                    return Val(const(ta.args[0] + tb.args[0]))
                if op == "mul":
                    return Val(const(ta.args[0] * tb.args[0]))
            except Exception:
                pass
        if op == "add" and (ta.op == "fstr" or tb.op == "fstr" or (ta.op == "const" and isinstance(ta.args[0], str)) or (tb.op == "const" and isinstance(tb.args[0], str))):
            return Val(mk("fstr", ta, tb))
        if op == "pow" and is_num(tb) and tb.args[0] == 0.5:
            return Val(mk("npcall", "sqrt", (ta,), ()))
        return Val(Arith(op, ta, tb))

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st)
            res.append(self.compare(op, left, right, st))
            left = right
        return Val(And(*res))

    def compare(self, op, a, b, st):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.in_(a, b, st)
            return r if isinstance(op, ast.In) else Not(r)
        ta, tb = self.term(a, st), self.term(b, st)
        if isinstance(op, ast.Lt):
            return Lt(ta, tb)
        if isinstance(op, ast.Gt):
            return Lt(tb, ta)
        if isinstance(op, ast.LtE):
            return Le(ta, tb)
        if isinstance(op, ast.GtE):
            return Le(tb, ta)
        r = Eq(ta, tb)
        return r if isinstance(op, ast.Eq) else Not(r)

    def is_(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Val) and y.term is NONE:
                return self.isnone(x, st)
            if isinstance(y, Val) and y.term in (TRUE, FALSE):
                if isinstance(x, Val):
                    if is_const(x.term):
                        return TRUE if x.term is y.term else FALSE
                    if is_boolean(x.term):
                        return x.term if y.term is TRUE else Not(x.term)
        if isinstance(a, (Cls, Func, Ext, Builtin, Mod)) or isinstance(b, (Cls, Func, Ext, Builtin, Mod)):
            if isinstance(a, Val) or isinstance(b, Val) or isinstance(a, Choice) or isinstance(b, Choice):
                return mk("is", self.term(a, st), self.term(b, st))
            return TRUE if a is b else FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.addr == b.addr else FALSE
        ta, tb = self.term(a, st), self.term(b, st)
        if ta is tb and a is b:
            return TRUE
        return mk("is", ta, tb)

    def isnone(self, x, st):
        if isinstance(x, Val):
            r = Isnone(x.term)
            return r
        if isinstance(x, Choice):
            return Ite(x.cond, self.isnone(x.a, st), self.isnone(x.b, st))
        return FALSE

    def in_(self, a, b, st):
        ta = self.term(a, st)
        items = self.concrete_iter(b, st)
        if items is not None:
            return Or(*[Eq(ta, self.term(x, st)) for x in items])
        return mk("in", ta, self.term(b, st))

    def e_Subscript(self, n, st):
        base = self.ev(n.value, st)
        if isinstance(base, Ext):
            if not isinstance(n.slice, ast.Slice) and base.name.split(".")[0] in ("typing",):
                return base
        idx = self.ev(n.slice, st)
        return self.getitem(base, idx, st, n)

    def e_Slice(self, n, st):
        f = lambda x: self.term(self.ev(x, st), st) if x is not None else NONE
        return Val(mk("slice_obj", f(n.lower), f(n.upper), f(n.step)))

    def getitem(self, base, idx, st, node):
        base, idx = self.resolve(base, st), self.resolve(idx, st)
        if isinstance(base, Choice):
            return self.fork_value(base.cond, st, lambda s: self.getitem(base.a, idx, s, node), lambda s: self.getitem(base.b, idx, s, node))
        it = self.term(idx, st)
        if isinstance(base, Cls) or isinstance(base, Ext):
            return base if isinstance(base, Cls) else Val(mk("getitem", self.term(base, st), it))
        if isinstance(base, Tup):
            if it.op == "const" and isinstance(it.args[0], int):
                k = it.args[0]
                if -len(base.items) <= k < len(base.items):
                    return base.items[k]
                self.sinks[-1].append(("IndexError", st.copy(), Ext("IndexError")))
                raise Dead()
            if it.op == "slice_obj" and all(is_const(x) for x in it.args):
                return Tup(base.items[slice(*[x.args[0] for x in it.args])])
        if isinstance(base, Ref):
            o = st.heap[base.addr]
            if o.kind == "inst":
                f, _ = o.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(Bound(f, base), [idx], {}, st, node)
            if o.kind in ("list", "inst") and o.items is not None:
                if it.op == "const" and isinstance(it.args[0], int):
                    k = it.args[0]
                    if -len(o.items) <= k < len(o.items):
                        return o.items[k]
                    self.sinks[-1].append(("IndexError", st.copy(), Ext("IndexError")))
                    raise Dead()
                if it.op == "slice_obj" and all(is_const(x) and (x.args[0] is None or isinstance(x.args[0], int)) for x in it.args):
                    return self.alloc(st, ListObj(o.items[slice(*[x.args[0] for x in it.args])], None, elemprov(o.prov)))
            if o.kind == "dict" and o.term is None:
                key = it.args[0] if it.op == "const" else it
                try:
                    hit = key in o.items
                except TypeError:
                    hit = False
                if hit:
                    return o.items[key]
                if o.default is not None:
                    v = self.call(o.default, [], {}, st, node)
                    st.obj_w(base.addr).items[key] = v
                    return v
                if it.op == "const":
                    self.event("raise", st, node, exc="KeyError")
                    self.sinks[-1].append(("KeyError", st.copy(), Ext("KeyError")))
                    raise Dead()
                # symbolic key
                self.event("dictlookup", st, node, key=it, keys=tuple(o.items))
                return Val(mk("getitem", self.term(base, st), it))
            if o.kind == "list":
                r = self.index_term(self.term(base, st), it)
                if it.op == "slice_obj":
                    return self.alloc(st, ListObj(None, r, elemprov(self.provs(base, st))))
                return self.unpack_term(r, self.provs(base, st))
        bt = self.term(base, st)
        pr = self.provs(base, st)
        r = self.index_term(bt, it)
        if self.is_fancy(it):
            pr = frozenset()
        elif it.op == "slice_obj" and self.hooks.is_list(bt):
            pr = elemprov(pr)
        return self.unpack_term(r, pr)

    def is_fancy(self, it):
        if it.op == "npcall" and it.args[0] in ("argsort", "where", "nonzero", "random.permutation"):
            return True
        return it.op in ("lt", "le", "list", "gather", "map")

    def index_term(self, bt, it):
        if it.op == "slice_obj":
            return Slice(bt, *it.args)
        if self.is_fancy(it):
            return Gather(bt, it) if it.op not in ("lt", "le") else mk("getitem", bt, it)
        if self.complex_index(it) or (it.op == "const" and not isinstance(it.args[0], (int, str))):
            return mk("getitem", bt, it)
        return Select(bt, it)

    # -- comprehensions -------------------------------------------------

    def comp(self, n, st, elt):
        """Returns ('items', list) or ('term', term)."""
        fr = self.frames[-1]
        env = ("comp", self.uid())
        st.envs[env] = {"$parent": fr.env}
        st.own_e.add(env)
        nf = Frame(fr.func, env)
        nf.loops = fr.loops
        nf.returns = fr.returns
        self.frames.append(nf)
        try:
            return self.comp_gen(n.generators, 0, st, elt, n)
        finally:
            self.frames.pop()
            d = st.envs.get(env)
            if d is not None and not d.get("$captured"):
                del st.envs[env]

    def comp_gen(self, gens, i, st, elt, n):
        g = gens[i]
        it = self.resolve(self.ev(g.iter, st), st)
        items = self.concrete_iter(it, st)
        if isinstance(it, Choice) and items is None:
            def go(w):
                def f(s):
                    k, r = self.comp_over(w, gens, i, s, elt, n)
                    return self.alloc(s, ListObj(r) if k == "items" else ListObj(None, r))
                return f
            if i:
                return ("term", mk("unknown", "comp", self._siteno(self.site(n))))
            return ("value", self.fork_value(it.cond, st, go(it.a), go(it.b)))
        return self.comp_over(it, gens, i, st, elt, n)

    def comp_over(self, it, gens, i, st, elt, n):
        g = gens[i]
        items = self.concrete_iter(it, st)
        if items is not None:
            out = []
            saved_cp = self.callpath
            for ui, v in enumerate(items):
                self.callpath = saved_cp + (("item", ui),)
                self.assign(g.target, v, st)
                keep = True
                for c in g.ifs:
                    d = self.decide(self.cond(c, st), st)
                    if d is None:
                        self.note("undecided comprehension filter", c)
                        self.callpath = saved_cp
                        return ("term", mk("unknown", "compfilter", self._siteno(self.site(n))))
                    if not d:
                        keep = False
                        break
                if not keep:
                    continue
                if i + 1 < len(gens):
                    r = self.comp_gen(gens, i + 1, st, elt, n)
                    if r[0] == "term":
                        self.callpath = saved_cp
                        return r
                    out.extend(r[1])
                else:
                    out.append(self.ev(elt, st))
            self.callpath = saved_cp
            return ("items", out)
        if g.ifs or i + 1 < len(gens):
            self.note("symbolic comprehension with filter/nesting", n)
            return ("term", mk("unknown", "comp", self._siteno(self.site(n))))
        if isinstance(it, Lazy):
            S = it.term(self, st)
        else:
            S = self.seq_term(it, st)
        uid = self._siteno(self.site(n))
        h = mk("hole", f"c{uid}")
        elem = self.elem_of(S, h, self.provs(it, st))
        self.assign(g.target, elem, st)
        saved = self.loopctx
        self.loopctx = saved + (uid,)
        try:
            v = self.ev(elt, st)
        finally:
            self.loopctx = saved
        body = self.term(v, st)
        self.compprov = elemprov(self.provs(v, st))
        if contains(body, lambda t: t.op == "map"):
            if contains(body, lambda t: t is hole()):
                return ("term", mk("unknown", "nestedmap", uid))
        m = {h: hole()}
        for f in subterms(body):
            # one draw per element
            if f.op == "fresh" and len(f.args) == 2 and "L%d" % uid in self.fresh_loops.get(f.args[1], ()):
                m[f] = mk("fresh", f.args[0], f.args[1], hole())
        body = subst(body, m)
        return ("term", Map(body, S))

    def elem_of(self, S, h, prov):
        """Value of the generic element of sequence S (h stands for it)."""
        if S.op == "enumerate":
            return Tup([Val(mk("select", h, ZERO)), self.elem_of(S.args[0], mk("select", h, ONE), prov)])
        if S.op == "zip":
            return Tup([self.elem_of(x, mk("select", h, const(i)), prov) for i, x in enumerate(S.args)])
        return Val(h, prov)

    def e_ListComp(self, n, st):
        self.compprov = frozenset()
        kind, r = self.comp(n, st, n.elt)
        if kind == "value":
            return r
        if kind == "items":
            return self.alloc(st, ListObj(r))
        return self.alloc(st, ListObj(None, r, self.compprov))

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st)

    def e_SetComp(self, n, st):
        return self.e_ListComp(n, st)

    def e_DictComp(self, n, st):
        kind, r = self.comp(n, st, ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()))
        if kind == "value":
            kind, r = "term", self.term(r, st)
        if kind == "items":
            d = DictObj()
            for kv in r:
                kt = self.term(kv.items[0], st)
                d.items[kt.args[0] if kt.op == "const" else kt] = kv.items[1]
            return self.alloc(st, d)
        return self.alloc(st, DictObj(term=mk("dictof", r)))

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    # -- attributes -----------------------------------------------------

    def getattr(self, base, name, st, node):
        base = self.resolve(base, st)
        if isinstance(base, Choice):
            return self.fork_value(base.cond, st, lambda s: self.getattr(base.a, name, s, node), lambda s: self.getattr(base.b, name, s, node))
        if isinstance(base, Ref):
            o = st.heap[base.addr]
            if o.kind == "inst":
                return self.inst_attr(base, o, name, st, node)
            return Bound(self.p.method(o.kind, name), base)
        if isinstance(base, Ext):
            full = base.name + "." + name
            if full in EXTCONST:
                return Val(const(EXTCONST[full]))
            return Ext(full)
        if isinstance(base, Mod):
            return self.p.module_attr(base, name, st)
        if isinstance(base, Cls):
            if name == "__name__":
                return Val(const(base.name))
            v, c = base.lookup(name)
            if v is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, base)
                return v
            if name == "__doc__":
                return Val(mk("unknown", "doc"))
            return Ext(base.qual + "." + name)
        if isinstance(base, Super):
            return self.super_attr(base, name, st, node)
        if isinstance(base, Tup):
            return Bound(self.p.method("tuple", name), base)
        if isinstance(base, Func):
            if name in ("__name__", "__qualname__"):
                return Val(const(base.name))
            if name == "__doc__":
                return Val(mk("unknown", "doc"))
            return Val(mk("attr", self.term(base, st), name))
        if isinstance(base, Bound):
            if name == "__func__":
                return base.func
            return self.getattr(base.func, name, st, node) if isinstance(base.func, Func) else Val(mk("attr", self.term(base, st), name))
        if isinstance(base, Prop):
            if name == "setter":
                return Builtin("prop.setter", lambda it, s, a, k, nd: Prop(base.fget, a[0]))
            return Val(mk("unknown", "propattr"))
        if isinstance(base, Val):
            r = self.hooks.attr(self, st, base, name)
            if r is not None:
                return r
            if base.term.op == "const" and isinstance(base.term.args[0], str):
                return Bound(self.p.method("str", name), base)
            prov = base.prov if name in PROV_ATTRS else frozenset()
            return Val(mk("attr", base.term, name), prov)
        if isinstance(base, Lazy):
            return Val(mk("attr", base.term(self, st), name))
        return Val(mk("attr", self.term(base, st), name))

    def inst_attr(self, ref, o, name, st, node, default=None):
        v, c = o.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call(Bound(v.fget, ref), [], {}, st, node)
        if name in o.attrs:
            r = o.attrs[name]
            r = self.resolve(r, st)
            if isinstance(r, Val) and r.term is UNDEF:
                self.event("undef", st, node, name=name)
            return r
        if v is not None:
            if isinstance(v, Func) or (isinstance(v, Builtin)):
                return Bound(v, ref)
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, o.cls)
            return v
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return Val(mk("unknown", "dict"))
        if o.items is not None or o.term is not None:
            return Bound(self.p.method("list", name), ref)
        f, _ = o.cls.lookup("__getattr__")
        if f is not None:
            return self.call(Bound(f, ref), [Val(const(name))], {}, st, node)
        self.event("attrerror", st, node, name=name, cls=o.cls)
        self.sinks[-1].append(("AttributeError", st.copy(), Ext("AttributeError")))
        raise Dead()

    def super_attr(self, sup, name, st, node):
        obj = sup.self_
        cls = st.heap[obj.addr].cls if isinstance(obj, Ref) else obj
        mro = cls.mro()
        i = mro.index(sup.cls) + 1 if sup.cls in mro else 0
        for c in mro[i:]:
            if isinstance(c, Cls) and name in c.ns:
                v = c.ns[name]
                if isinstance(v, Prop):
                    return self.call(Bound(v.fget, obj), [], {}, st, node)
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, cls)
                if isinstance(v, (Func, Builtin)):
                    return Bound(v, obj)
                return v
        if name == "__setattr__":
            return Builtin("object.__setattr__", lambda it, s, a, k, nd: it._rawset(obj, a, s, nd))
        if name == "__init__":
            def init(it, s, a, k, nd):
                if isinstance(obj, Ref) and a:
                    o = s.obj_w(obj.addr)
                    if any(n in ("list",) for n in o.cls.ext_bases()):
                        it.fill_list(o, a[0], s)
                return Val(NONE)
            return Builtin("object.__init__", init)
        return Val(mk("unknown", "super." + name))

    def _rawset(self, obj, a, st, node):
        kt = self.term(a[0], st)
        if kt.op == "const":
            self.setattr(obj, kt.args[0], a[1], st, node, raw=True)
        else:
            self.note("symbolic setattr", node)
        return Val(NONE)

    def fill_list(self, o, v, st):
        items = self.concrete_iter(v, st)
        if items is not None:
            o.items = list(items)
        else:
            o.term = self.seq_term(v, st)

    # -- calls ----------------------------------------------------------

    def e_Call(self, n, st):
        f = self.ev(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.concrete_iter(v, st)
                if items is None:
                    v = self.resolve(v, st)
                    args.append(StarVal(self.seq_term(v, st), self.provs(v, st)))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.resolve(self.ev(k.value, st), st)
                if isinstance(v, Ref) and st.heap[v.addr].kind == "dict" and st.heap[v.addr].term is None:
                    for kk, vv in st.heap[v.addr].items.items():
                        kwargs[kk] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.ev(k.value, st)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and isinstance(f, Builtin) and not args:
            return self.make_super(st)
        return self.call(f, args, kwargs, st, n)

    def make_super(self, st):
        e = self.frames[-1].env
        while e is not None and e in st.envs:
            d = st.envs[e]
            if "$cls" in d:
                return Super(d["$cls"], d["$self"])
            e = d.get("$parent")
        return Val(mk("unknown", "super"))

    def call(self, f, args, kwargs, st, node):
        f = self.resolve(f, st)
        if isinstance(f, Choice):
            return self.fork_value(f.cond, st, lambda s: self.call(f.a, args, kwargs, s, node), lambda s: self.call(f.b, args, kwargs, s, node))
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, st, node)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self_] + list(args), kwargs, st, node)
            if isinstance(f.func, Builtin):
                return f.func.fn(self, st, [f.self_] + list(args), kwargs, node)
            return self.call(f.func, [f.self_] + list(args), kwargs, st, node)
        if isinstance(f, Builtin):
            return f.fn(self, st, list(args), kwargs, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st, node)
        if isinstance(f, Ext):
            return self.p.call_ext(self, f.name, list(args), kwargs, st, node)
        if isinstance(f, Ref):
            o = st.heap[f.addr]
            if o.kind == "inst":
                m, _ = o.cls.lookup("__call__")
                if m is not None:
                    return self.call(Bound(m, f), args, kwargs, st, node)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs, st, node)
        return self.call_opaque(f, args, kwargs, st, node)

    def arg_terms(self, args, st):
        return tuple(
            mk("star", a.term) if isinstance(a, StarVal) else self.term(a, st) for a in args
        )

    def call_opaque(self, f, args, kwargs, st, node):
        ft = self.term(f, st)
        targs = self.arg_terms(args, st)
        tkw = tuple(sorted((k, self.term(v, st)) for k, v in kwargs.items()))
        if ft.op == "attr":
            base = Val(ft.args[0])
            name = ft.args[1]
            r = self.hooks.mcall(self, st, base, name, args, kwargs, node)
            if r is not None:
                return r
            impure = self.hooks.impure(ft.args[0], name)
            t = mk("mcall", name, ft.args[0], targs, tkw)
            if name in MUTATING_METHODS or name in MUTATING_DUNDERS:
                self.event("mutate", st, node, how="method:" + name, prov=f.prov if isinstance(f, Val) else frozenset(), term=ft.args[0], idx=NONE, value=NONE)
        else:
            r = self.hooks.call_(self, st, ft, args, kwargs, node)
            if r is not None:
                return r
            impure = self.hooks.impure(ft, None)
            t = mk("call", ft, targs, tkw)
        if impure:
            t = self.fresh(show(t, 2), node)
            self.event("call", st, node, callee=ft, args=targs, kwargs=tkw, result=t, vals=list(args))
            return Val(t, self.hooks.alias(ft, args))
        self.event("call", st, node, callee=ft, args=targs, kwargs=tkw, result=t, vals=list(args))
        prov = self.hooks.alias(ft, args)
        if ft.op == "attr" and isinstance(f, Val):
            if ft.args[1] in VIEW_METHODS or (ft.args[1] == "astype" and ("copy", const(False)) in tkw):
                prov |= self.p.opaque_prov(f)
        return Val(t, prov)

    def bind(self, f, args, kwargs, st, node):
        a = f.node.args
        pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        env = {}
        args = list(args)
        # star value handling
        for i, x in enumerate(args):
            if isinstance(x, StarVal):
                need = len(pos) - i
                if a.vararg is None and need >= 0:
                    rest = args[i + 1:]
                    cnt = need - len(rest)
                    args = args[:i] + [Val(Select(x.term, const(j)), x.prov) for j in range(cnt)] + rest
                elif a.vararg is not None and need <= 0:
                    pass
                elif a.vararg is not None:
                    rest = args[i + 1:]
                    args = args[:i] + [Val(Select(x.term, const(j)), x.prov) for j in range(need)] + [StarVal(Slice(x.term, const(need), NONE, NONE), x.prov)] + rest
                break
        n = min(len(pos), len(args))
        for k in range(n):
            env[pos[k]] = args[k]
        extra = args[n:]
        if a.vararg is not None:
            if any(isinstance(x, StarVal) for x in extra):
                if len(extra) == 1:
                    env[a.vararg.arg] = Val(extra[0].term, extra[0].prov)
                else:
                    parts = []
                    for x in extra:
                        parts.append(mk("star", x.term) if isinstance(x, StarVal) else self.term(x, st))
                    env[a.vararg.arg] = Val(mk("startuple", *parts))
            else:
                env[a.vararg.arg] = Tup(extra)
        elif extra:
            self.raise_type(st, node)
        kw = dict(kwargs)
        star = kw.pop("**", None)
        names = pos + [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    self.raise_type(st, node)
                env[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            self.raise_type(st, node)
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[name] = f.defaults[j]
                elif star is not None:
                    env[name] = Val(mk("getitem", self.term(star, st), const(name)))
                else:
                    self.raise_type(st, node)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in env:
                if d is not None:
                    env[x.arg] = d
                elif star is not None:
                    env[x.arg] = Val(mk("getitem", self.term(star, st), const(x.arg)))
                else:
                    self.raise_type(st, node)
        if a.kwarg is not None:
            d = DictObj(rest)
            env[a.kwarg.arg] = self.alloc(st, d)
        return env

    def raise_type(self, st, node):
        self.event("raise", st, node, exc="TypeError")
        self.sinks[-1].append(("TypeError", st.copy(), Ext("TypeError")))
        raise Dead()

    def call_func(self, f, args, kwargs, st, node):
        self.hook_site = (kwargs, st, node)
        r = self.hooks.enter_func(self, f, args)
        if r is not None:
            return r
        if len(self.frames) > MAX_DEPTH or sum(1 for x in self.frames if x.func == f.qual) > 4:
            self.note(f"recursion limit at {f.qual}", node)
            return Val(mk("unknown", "rec:" + f.qual))
        env = self.bind(f, args, kwargs, st, node)
        eid = ("f", self.uid())
        env["$parent"] = f.env
        if f.cls is not None and args:
            env["$cls"] = f.cls
            env["$self"] = args[0]
        st.envs[eid] = env
        st.own_e.add(eid)
        qual = (f.cls.name + "." if f.cls is not None and "." not in f.qual else "") + f.qual
        fr = Frame(qual, eid)
        self.funcs_seen.add((f.module, qual))
        self.frames.append(fr)
        self.modstack.append(f.module)
        savedpath = self.callpath
        self.callpath = savedpath + (id(node),)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                out = st
                out.env_w(eid)["$ret"] = v
                outs = [out]
            else:
                nxt = self.exec_block(f.node.body, st)
                outs = list(fr.returns)
                if nxt is not None:
                    nxt.env_w(eid)["$ret"] = Val(NONE)
                    outs.append(nxt)
        finally:
            self.frames.pop()
            self.modstack.pop()
            self.callpath = savedpath
        if not outs:
            raise Dead()
        m = self.merge(outs)
        v = m.envs[eid].get("$ret")
        if not m.envs[eid].get("$captured"):
            del m.envs[eid]
        else:
            m.env_w(eid).pop("$ret", None)
        if m is not st:
            st.assign(m)
        return v

    def instantiate(self, cls, args, kwargs, st, node):
        ref = self.alloc(st, Inst(cls))
        exts = cls.ext_bases()
        init, c = cls.lookup("__init__")
        nt = next((c.ntfields for c in cls.mro() if getattr(c, "ntfields", None)), None)
        if nt is not None:
            vals = dict(zip([f for f, _ in nt], args))
            if len(args) > len(nt) or set(kwargs) - {f for f, _ in nt} or set(kwargs) & set(vals):
                self.raise_type(st, node)
            vals.update(kwargs)
            for f, d in nt:
                if f not in vals:
                    if d is None:
                        self.raise_type(st, node)
                    vals[f] = d
            st.obj_w(ref.addr).items = [vals[f] for f, _ in nt]
        elif cls.dataclass:
            fields = cls.dc_fields()
            o = st.obj_w(ref.addr)
            for (name, dflt), v in zip(fields, args):
                o.attrs[name] = v
            for k, v in kwargs.items():
                o.attrs[k] = v
            for name, dflt in fields:
                if name not in o.attrs:
                    if dflt is None:
                        self.raise_type(st, node)
                    o.attrs[name] = dflt
            for k in kwargs:
                if k not in [x for x, _ in fields]:
                    self.raise_type(st, node)
        elif init is not None:
            self.call(Bound(init, ref), args, kwargs, st, node)
        elif "list" in exts or any(e.endswith("list") for e in exts):
            o = st.obj_w(ref.addr)
            if args:
                self.fill_list(o, args[0], st)
            else:
                o.items = []
        elif any(e.endswith(("Error", "Exception")) for e in exts):
            pass
        self.event("new", st, node, cls=cls, addr=ref.addr, args=self.arg_terms(args, st), kwargs={k: self.term(v, st) for k, v in kwargs.items()})
        return ref

    def list_extend(self, st, ref, other, node):
        o = st.heap[ref.addr]
        items = self.concrete_iter(other, st)
        self.event("mutate", st, node, how="extend", prov=o.prov if o.kind == "list" else frozenset(), term=self.term(ref, st), idx=NONE, value=self.term(other, st), addr=ref.addr)
        o = st.obj_w(ref.addr)
        if items is not None and o.items is not None:
            o.items = o.items + list(items)
        else:
            cur = self.term(ref, st)
            o.items = None
            o.term = mk("concat", cur, self.seq_term(other, st))


MUTATING_METHODS = {"sort", "fill", "resize", "append", "extend", "insert", "pop", "remove", "clear", "reverse", "setdefault", "update", "itemset", "partition"}
VIEW_METHODS = {"reshape", "ravel", "transpose", "squeeze", "swapaxes", "view", "diagonal"}
PROV_ATTRS = {"T", "real", "imag", "flat", "H", "mT"} | VIEW_METHODS | MUTATING_METHODS | {"astype", "__iadd__", "__imul__", "__isub__", "__itruediv__", "__setitem__"}
MUTATING_DUNDERS = {"__iadd__", "__imul__", "__isub__", "__itruediv__", "__setitem__"}


def elemprov(p):
    """Origins of the elements of a fresh sequence with these elements."""
    return frozenset(x if x.startswith("elem:") else "elem:" + x for x in p)


class StarVal:
    def __init__(self, term, prov=frozenset()):
        self.term = term
        self.prov = prov


class Lazy:
    """Lazy iterables (zip/enumerate/map/range objects over abstract values)."""

    def __init__(self, kind, parts):
        self.kind = kind
        self.parts = parts

    def concrete(self, it, st):
        if self.kind == "map":
            f, seqs = self.parts[0], self.parts[1:]
            cs = [it.concrete_iter(s, st) for s in seqs]
            if any(c is None for c in cs):
                return None
            return [it.call(f, list(xs), {}, st, self.node) for xs in zip(*cs)]
        cs = [it.concrete_iter(p, st) for p in self.parts]
        if self.kind == "enumerate":
            if cs[0] is None:
                return None
            return [Tup([Val(const(i)), x]) for i, x in enumerate(cs[0])]
        if self.kind == "zip":
            known = [c for c in cs if c is not None]
            if len(known) != len(cs):
                if known and not self.allsym():
                    n = min(len(c) for c in known)
                    cs = [
                        c if c is not None else [it.unpack_term(Select(it.seq_term(p, st) if not isinstance(p, Lazy) else p.term(it, st), const(i)), it.provs(p, st)) for i in range(n)]
                        for c, p in zip(cs, self.parts)
                    ]
                else:
                    return None
            return [Tup(x) for x in zip(*cs)]
        if self.kind == "reversed":
            return None if cs[0] is None else list(reversed(cs[0]))
        return None

    def allsym(self):
        return False

    def term(self, it, st):
        if self.kind == "map":
            f, seqs = self.parts[0], self.parts[1:]
            terms = [s.term(it, st) if isinstance(s, Lazy) else it.seq_term(s, st) for s in seqs]
            S = terms[0] if len(terms) == 1 else mk("zip", *terms)
            h = mk("hole", "m%d" % it._siteno(it.site(self.node)))
            if len(terms) == 1:
                v = it.call(f, [Val(h)], {}, st, self.node)
            else:
                v = it.call(f, [Val(mk("select", h, const(i))) for i in range(len(terms))], {}, st, self.node)
            return Map(subst(it.term(v, st), {h: hole()}), S)
        terms = [p.term(it, st) if isinstance(p, Lazy) else it.seq_term(p, st) for p in self.parts]
        return mk(self.kind, *terms)

    def elem(self, it, idx, st, node):
        if self.kind == "enumerate":
            return Tup([Val(idx), it.iter_elem(self.parts[0], idx, st, node)])
        if self.kind == "zip":
            return Tup([it.iter_elem(p, idx, st, node) for p in self.parts])
        return Val(Select(self.term(it, st), idx))


class JoinCtx:
    def __init__(self, it, cond, pol):
        self.it = it
        self.cond = cond
        self.pol = pol
        self.memo = {}
        self.vmemo = {}

    def leaf(self, x, y):
        return Ite(self.cond, x, y) if self.pol else Ite(self.cond, y, x)

    def newaddr(self):
        return self.it.uid()


class LoopCtx:
    """Join of loop entry (a) and back edge (b): leaves become phi nodes."""

    cond = None
    pol = True

    def __init__(self, it, lid, header, coarse):
        self.it = it
        self.lid = lid
        self.memo = {}
        self.vmemo = {}
        self.n = 0
        self.na = 0
        self.info = {}
        self.coarse = coarse
        self.old = {t: i for t, i in it.phis.items() if t.args[0] == lid}

    def leaf(self, x, y):
        # phi(e, phi_self) where phi_self's entry is e: loop invariant
        if y.op == "phi" and y.args[0] == self.lid:
            info = self.old.get(y)
            if info is not None and info["entry"] is x and info.get("inv_ok", True):
                b = info["back"]
                if b is y or b is x:
                    return x
        t = mk("phi", self.lid, self.n)
        self.n += 1
        self.info[t] = {"entry": x, "back": y, "lid": self.lid}
        return t

    def newaddr(self):
        self.na += 1
        return ("hdr", self.lid, self.na)


def _load(t):
    import copy

    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2
