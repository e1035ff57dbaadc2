"""Hash-consed terms: the value-number domain.

A term is an immutable node ``op(args...)``.  Structurally equal terms are
identical objects, so equality of value numbers is pointer equality.
"""
import math
from fractions import Fraction

_TABLE = {}


class Term:
    __slots__ = ("op", "args", "tid", "_h", "fv")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.tid < other.tid


def _key(a):
    if isinstance(a, Term):
        return ("t", a.tid)
    if isinstance(a, tuple):
        return ("T",) + tuple(_key(x) for x in a)
    if isinstance(a, float) and math.isnan(a):
        return ("nan",)
    return (type(a).__name__, a)


def mk(op, *args):
    key = (op,) + tuple(_key(a) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.tid = len(_TABLE)
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")
ZERO = const(0)
ONE = const(1)


def sym(name, kind=None):
    return mk("sym", name)


def is_const(t):
    return t.op == "const"


def is_num(t):
    return (
        t.op == "const"
        and isinstance(t.args[0], (int, float, complex, Fraction))
        and not isinstance(t.args[0], bool)
    )


BOOL_OPS = {
    "lt", "le", "eq", "not", "and", "or", "truthy", "is", "isnone",
    "isinstance", "in", "more", "raises",
}


def is_boolean(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == "const" and isinstance(t.args[0], bool):
        return True
    if t.op == "ite":
        return is_boolean(t.args[1]) and is_boolean(t.args[2])
    return False


def Not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "ite" and is_boolean(t):
        return Ite(t.args[0], Not(t.args[1]), Not(t.args[2]))
    return mk("not", t)


def And(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            out.extend(x for x in t.args if x not in out)
        elif t not in out:
            out.append(t)
    for t in out:
        if Not(t) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda t: t.tid))


def Or(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "or":
            out.extend(x for x in t.args if x not in out)
        elif t not in out:
            out.append(t)
    for t in out:
        if Not(t) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out, key=lambda t: t.tid))


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return Ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_boolean(a) and is_boolean(b):
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
    return mk("ite", c, a, b)


def Isnone(t):
    if t is NONE:
        return TRUE
    if t.op == "const":
        return FALSE
    if t.op == "ite":
        return Ite(t.args[0], Isnone(t.args[1]), Isnone(t.args[2]))
    if t.op in NONNONE:
        return FALSE
    return mk("isnone", t)


NONNONE = {
    "add", "mul", "neg", "pow", "div", "matmul", "tuple", "list", "dict",
    "fstr", "map", "gather", "slice", "store", "ref", "func", "class",
    "lt", "le", "eq", "not", "and", "or", "append", "npcall", "fresh",
    "idx", "range",
    "tensor", "G", "H", "Z", "S", "C", "tape", "acc", "gradfn",
}


def Truthy(t):
    if t.op == "const":
        try:
            return TRUE if t.args[0] else FALSE
        except Exception:
            return TRUE
    if is_boolean(t):
        return t
    if t.op == "ite":
        return Ite(t.args[0], Truthy(t.args[1]), Truthy(t.args[2]))
    if t.op == "fstr":
        if any(is_const(a) and a.args[0] for a in t.args):
            return TRUE
    if t.op in ("tuple", "list"):
        return TRUE if t.args else FALSE
    if t.op in ("func", "class"):
        return TRUE
    if t.op == "npcall" and t.args[0] == "isnan" and len(t.args[1]) == 1 and is_num(t.args[1][0]):
        v = t.args[1][0].args[0]
        return TRUE if v != v else FALSE
    return mk("truthy", t)


def _nan(t):
    return t.op == "const" and isinstance(t.args[0], float) and t.args[0] != t.args[0]


def _cmpconst(f, a, b):
    try:
        return TRUE if f(a.args[0], b.args[0]) else FALSE
    except Exception:
        return None


def _inf(t):
    """+1/-1 for an infinite constant, else 0."""
    if t.op == "const" and isinstance(t.args[0], float) and math.isinf(t.args[0]):
        return 1 if t.args[0] > 0 else -1
    return 0


def Lt(a, b):
    # nothing is above +inf or below -inf
    if _inf(a) > 0 or _inf(b) < 0 or _nan(a) or _nan(b):
        return FALSE
    if is_num(a) and is_num(b):
        r = _cmpconst(lambda x, y: x < y, a, b)
        if r is not None:
            return r
    if a is b:
        return FALSE
    return mk("lt", a, b)


def Le(a, b):
    if _nan(a) or _nan(b):
        return FALSE
    if is_num(a) and is_num(b):
        r = _cmpconst(lambda x, y: x <= y, a, b)
        if r is not None:
            return r
    if a is b and a.op != "const":
        return TRUE
    return mk("le", a, b)


def Eq(a, b):
    if a is b:
        if not (is_const(a) and a.args[0] != a.args[0]):
            return TRUE
    if is_const(a) and is_const(b):
        r = _cmpconst(lambda x, y: x == y, a, b)
        if r is not None:
            return r
    if a.op == "ite" and is_const(b):
        x, y = Eq(a.args[1], b), Eq(a.args[2], b)
        if is_const(x) or is_const(y):
            return Ite(a.args[0], x, y)
    if b.op == "ite" and is_const(a):
        return Eq(b, a)
    if {a.op, b.op} <= {"tuple", "list"} and len(a.args) != len(b.args):
        return FALSE
    if b is TRUE and is_boolean(a):
        return a
    if b is FALSE and is_boolean(a):
        return Not(a)
    if a.tid > b.tid:
        a, b = b, a
    return mk("eq", a, b)


def Neg(a):
    if is_num(a):
        return const(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def Arith(op, a, b):
    """Arithmetic with constant folding only."""
    if is_num(a) and is_num(b):
        x, y = a.args[0], b.args[0]
        try:
            if op == "add":
                return const(x + y)
            if op == "sub":
                return const(x - y)
            if op == "mul":
                return const(x * y)
            if op == "div":
                return const(x / y)
            if op == "pow":
                return const(x**y)
            if op == "floordiv":
                return const(x // y)
            if op == "mod":
                return const(x % y)
        except Exception:
            pass
    if op == "add":
        if a is ZERO:
            return b
        if b is ZERO:
            return a
    if op == "sub":
        if b is ZERO:
            return a
        return mk("add", a, Neg(b))
    if op == "mul":
        if a is ONE:
            return b
        if b is ONE:
            return a
    if op == "div" and b is ONE:
        return a
    if op == "pow" and b is ONE:
        return a
    if op == "add" and a.op in ("list", "tuple") and b.op == a.op:
        return mk(a.op, *a.args, *b.args)
    return mk(op, a, b)


# ---------------------------------------------------------------------------
# Sequences


def hole(n=0):
    return mk("hole", n)


def subst(t, m, memo=None):
    """Replace terms by terms (m: dict Term -> Term), rebuilding."""
    if memo is None:
        memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        if not t.args or t.op in ("const", "sym"):
            return t
        new = []
        changed = False
        for a in t.args:
            if isinstance(a, Term):
                b = go(a)
                changed |= b is not a
                new.append(b)
            elif isinstance(a, tuple):
                b = gotup(a)
                changed |= b is not a
                new.append(b)
            else:
                new.append(a)
        r = rebuild(t.op, *new) if changed else t
        memo[t] = r
        return r

    def gotup(a):
        out = tuple(
            go(x) if isinstance(x, Term) else (gotup(x) if isinstance(x, tuple) else x)
            for x in a
        )
        return a if all(x is y for x, y in zip(a, out)) else out

    return go(t)


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = False
    r = pred(t)
    if not r:
        for a in flat_args(t):
            if contains(a, pred, memo):
                r = True
                break
    memo[t] = r
    return r


def flat_args(t):
    out = []

    def go(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                go(x)

    for a in t.args:
        go(a)
    return out


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(flat_args(x))
    return seen


def Len(s):
    if s.op in ("list", "tuple"):
        return const(len(s.args))
    if s.op == "const" and isinstance(s.args[0], (str, tuple, bytes)):
        return const(len(s.args[0]))
    if s.op == "map":
        return Len(s.args[1])
    if s.op == "gather":
        return Len(s.args[1])
    if s.op == "store":
        return Len(s.args[0])
    if s.op == "enumerate":
        return Len(s.args[0])
    if s.op == "range" and s.args[0] is ZERO and s.args[2] is ONE:
        return s.args[1]
    if s.op == "npcall" and s.args[0] == "argsort":
        return Len(s.args[1][0])
    if s.op == "append":
        return Arith("add", Len(s.args[0]), ONE)
    return mk("len", s)


SEQOPS = {"map", "gather", "slice", "enumerate", "zip", "range", "append"}


def is_seq(t):
    return t.op in SEQOPS or (t.op == "store" and is_seq(t.args[0]))


def Select(s, i):
    if s.op in ("list", "tuple") and i.op == "const" and isinstance(i.args[0], int):
        k = i.args[0]
        if -len(s.args) <= k < len(s.args):
            return s.args[k]
    if s.op == "const" and isinstance(s.args[0], str) and i.op == "const" and isinstance(i.args[0], int):
        try:
            return const(s.args[0][i.args[0]])
        except IndexError:
            pass
    if s.op == "map":
        return subst(s.args[0], {hole(): Select(s.args[1], i)})
    if s.op == "gather":
        return Select(s.args[0], Select(s.args[1], i))
    if s.op == "enumerate":
        return mk("tuple", i, Select(s.args[0], i))
    if s.op == "zip":
        return mk("tuple", *[Select(x, i) for x in s.args])
    if s.op == "range":
        lo, hi, step = s.args
        return Arith("add", lo, Arith("mul", step, i))
    if s.op == "store":
        if s.args[1] is i:
            return s.args[2]
        if (
            i.op == "const"
            and s.args[1].op == "const"
            and isinstance(i.args[0], int)
            and isinstance(s.args[1].args[0], int)
            and i.args[0] != s.args[1].args[0]
            and (i.args[0] < 0) == (s.args[1].args[0] < 0)
        ):
            return Select(s.args[0], i)
    if s.op == "ite":
        a, b = Select(s.args[1], i), Select(s.args[2], i)
        return Ite(s.args[0], a, b)
    return mk("select", s, i)


def match_hole(pat, val, bind):
    """Match pattern containing hole() against val."""
    if pat is hole():
        if "h" in bind:
            return bind["h"] is val
        bind["h"] = val
        return True
    if pat is val and not contains(pat, lambda t: t is hole()):
        return True
    if pat.op != val.op or len(pat.args) != len(val.args):
        return False

    def m(a, b):
        if isinstance(a, Term) and isinstance(b, Term):
            return match_hole(a, b, bind)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(m(x, y) for x, y in zip(a, b))
        return a == b and type(a) is type(b)

    return all(m(a, b) for a, b in zip(pat.args, val.args))


def Store(s, i, v):
    if s.op in ("list", "tuple") and i.op == "const" and isinstance(i.args[0], int):
        k = i.args[0]
        n = len(s.args)
        if -n <= k < n:
            a = list(s.args)
            a[k] = v
            return mk(s.op, *a)
    if s.op == "map":
        body, base = s.args
        # the value is an ite of matching values
        if v.op == "ite":
            b1, b2 = {}, {}
            if match_hole(body, v.args[1], b1) and match_hole(body, v.args[2], b2):
                if "h" in b1 and "h" in b2:
                    return Map(body, Store(base, i, Ite(v.args[0], b1["h"], b2["h"])))
        b = {}
        if match_hole(body, v, b) and "h" in b:
            return Map(body, Store(base, i, b["h"]))
        if body is v and "h" not in b:
            return s
    if s.op == "store" and s.args[1] is i:
        return Store(s.args[0], i, v)
    if v.op == "select" and v.args[0] is s and v.args[1] is i:
        return s
    return mk("store", s, i, v)


def Map(body, base):
    h = hole()
    if body is h:
        return base
    if base.op in ("list", "tuple"):
        return mk("list", *[subst(body, {h: x}) for x in base.args])
    if base.op == "map":
        return Map(subst(body, {h: base.args[0]}), base.args[1])
    if base.op == "ite":
        pass
    # tuple-valued elements: project away unused components
    if base.op in ("enumerate", "zip"):
        n = 2 if base.op == "enumerate" else len(base.args)
        used = set()
        bad = [False]

        def scan(t):
            if t.op == "select" and t.args[0] is h and is_const(t.args[1]):
                used.add(t.args[1].args[0] % n)
                return
            if t is h:
                bad[0] = True
                return
            for a in flat_args(t):
                scan(a)

        scan(body)
        if not bad[0] and len(used) == 1:
            k = used.pop()
            m = {mk("select", h, const(k)): h, mk("select", h, const(k - n)): h}
            nb = subst(body, m)
            if base.op == "enumerate":
                if k == 1:
                    return Map(nb, base.args[0])
                return Map(nb, mk("range", ZERO, Len(base.args[0]), ONE))
            return Map(nb, base.args[k])
    # index loops over a sequence
    if base.op == "range" and base.args[0] is ZERO and base.args[2] is ONE:
        n = base.args[1]
        if n.op == "len":
            X = n.args[0]
            sel = Select(X, h)
            if sel.op == "select":
                nb = subst(body, {sel: mk("hole", "tmp")})
                if not contains(nb, lambda t: t is h):
                    return Map(subst(nb, {mk("hole", "tmp"): h}), X)
    # gather: selecting by an index sequence
    sel = []
    ok = [True]

    def scan2(t):
        if t.op == "select" and t.args[1] is h:
            if t.args[0] not in sel:
                sel.append(t.args[0])
            scan2(t.args[0])
            return
        if t is h:
            ok[0] = False
            return
        for a in flat_args(t):
            scan2(a)

    scan2(body)
    if ok[0] and len(sel) == 1 and not contains(sel[0], lambda t: t is h):
        X = sel[0]
        nb = subst(body, {mk("select", X, h): h})
        return Map(nb, Gather(X, base))
    return mk("map", body, base)


def Gather(x, order):
    if x.op == "map":
        return Map(x.args[0], Gather(x.args[1], order))
    if x.op == "range" and x.args[0] is ZERO and x.args[2] is ONE and order.op == "npcall" and order.args[0] == "argsort":
        return order
    return mk("gather", x, order)


def Slice(s, lo, hi, step):
    if s.op in ("list", "tuple") and all(
        x is NONE or (x.op == "const" and isinstance(x.args[0], int)) for x in (lo, hi, step)
    ):
        return mk(s.op, *s.args[slice(lo.args[0], hi.args[0], step.args[0])])
    if s.op == "const" and isinstance(s.args[0], str) and all(is_const(x) for x in (lo, hi, step)):
        return const(s.args[0][slice(lo.args[0], hi.args[0], step.args[0])])
    if s.op == "map":
        return Map(s.args[0], Slice(s.args[1], lo, hi, step))
    if lo is NONE and hi is NONE and step is NONE:
        return s
    return mk("slice", s, lo, hi, step)


def Append(s, v):
    if s.op == "list":
        return mk("list", *s.args, v)
    return mk("append", s, v)


def rebuild(op, *args):
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


_REBUILD = {
    "not": Not,
    "and": And,
    "or": Or,
    "ite": Ite,
    "isnone": Isnone,
    "truthy": Truthy,
    "lt": Lt,
    "le": Le,
    "eq": Eq,
    "neg": Neg,
    "add": lambda a, b: Arith("add", a, b),
    "mul": lambda a, b: Arith("mul", a, b),
    "div": lambda a, b: Arith("div", a, b),
    "pow": lambda a, b: Arith("pow", a, b),
    "len": Len,
    "select": Select,
    "store": Store,
    "map": Map,
    "gather": Gather,
    "slice": Slice,
    "append": Append,
}

INFIX = {"add": "+", "mul": "*", "div": "/", "pow": "**", "lt": "<", "le": "<=", "eq": "==", "matmul": "@"}


def show(t, depth=12):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "..."
    d = depth - 1
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "sym":
        return t.args[0]
    if t.op in INFIX and len(t.args) == 2:
        return f"({show(t.args[0], d)} {INFIX[t.op]} {show(t.args[1], d)})"
    if t.op == "neg":
        return f"-{show(t.args[0], d)}"
    if t.op == "select":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    if t.op == "mcall":
        name, recv, args, kw = t.args
        a = [show(x, d) for x in args] + [f"{k}={show(v, d)}" for k, v in kw]
        return f"{show(recv, d)}.{name}({', '.join(a)})"
    if t.op == "npcall" or t.op == "ext":
        name, args, kw = t.args
        a = [show(x, d) for x in args] + [f"{k}={show(v, d)}" for k, v in kw]
        return f"{name}({', '.join(a)})"
    if t.op == "call":
        f, args, kw = t.args
        a = [show(x, d) for x in args] + [f"{k}={show(v, d)}" for k, v in kw]
        return f"{show(f, d)}({', '.join(a)})"
    if t.op == "attr":
        return f"{show(t.args[0], d)}.{t.args[1]}"
    if t.op == "phi":
        return f"φ{t.args[1]}@{t.args[0][-1] if isinstance(t.args[0], tuple) else t.args[0]}"
    if t.op == "fresh":
        return f"?{t.args[0]}"
    return f"{t.op}({', '.join(show(a, d) for a in t.args)})"
