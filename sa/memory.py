"""Does an operation of an object depend on calls made before?

All operations of an object are executed abstractly one after the other; what
they left in the object, in classes, in defaults and in module variables is
renamed (the arguments and draws of these calls become ``earlier.*``) and each
operation is executed again from that state.
"""
import os

from .terms import *
from .values import *
from .interp import Dead
from .opt import entry_node
from .checks.c12 import Twice, same_value
from . import opt_common as oc


class Subject:
    def __init__(self, label, it, st, ref, ops, classes=(), where=None):
        """ops: {name: (state -> (callable value, args, kwargs))}"""
        self.label, self.it, self.st, self.ref, self.ops = label, it, st, ref, ops
        self.classes = list(classes)
        self.where = where or (lambda op: "")

    name = Twice.name
    changes = Twice.changes


def program_classes(program):
    out = []
    for m in list(program.mods):
        try:
            ns = program.namespace(m)
        except Exception:
            continue
        for v in ns.values():
            if isinstance(v, Cls):
                out.append(v)
    seen = {}
    for c in out:
        seen[id(c)] = c
    return list(seen.values())


def call(S, op, st):
    it = S.it
    it.sinks.append([])
    v = None
    try:
        f, args, kw = S.ops[op](st)
        v = it.call(f, args, kw, st, entry_node("mem:" + op))
    except Dead:
        pass
    finally:
        sink = it.sinks.pop()
    return v, sink


def flat_terms(it, v, st, depth=0):
    if v is None or depth > 6:
        return []
    v = it.resolve(v, st)
    if isinstance(v, Tup):
        return [t for x in v.items for t in flat_terms(it, x, st, depth + 1)]
    if isinstance(v, Ref):
        o = st.heap[v.addr]
        if o.kind in ("list", "inst") and getattr(o, "items", None) is not None:
            return [t for x in o.items for t in flat_terms(it, x, st, depth + 1)]
        if o.kind == "inst":
            return [t for x in o.attrs.values() for t in flat_terms(it, x, st, depth + 1)]
        if o.kind == "dict" and o.term is None:
            return [t for x in o.items.values() for t in flat_terms(it, x, st, depth + 1)]
    return [it.term(v, st)]


ARG = ("x", "y", "u", "v", "w", "g", "h", "X", "Y", "U", "V", "W", "G", "H")


class Renamer:
    """Arguments and draws of the earlier calls under new names."""

    base = frozenset()

    def __init__(self, args):
        self.args = set(args)
        self.map = {a: mk("sym", "earlier." + a.args[0]) for a in args}
        self.n = 0
        self.memo = {}

    def term(self, t):
        for s in list(subterms(t)):
            if s in self.map:
                continue
            if s.op == "random" or s.op == "fresh":
                self.n += 1
                self.map[s] = mk("sym", f"earlier.draw{self.n}" if s.op == "random" or "random" in str(s.args[0]) else f"earlier.value{self.n}")
                self.memo = {}
        return subst(t, self.map, self.memo)

    def value(self, v):
        if isinstance(v, Val):
            if v.prov and v.term in self.map and v.term in self.args:
                # the array of the caller itself, which may be overwritten
                return Val(mk("sym", "earlier.ref." + v.term.args[0]), v.prov)
            return Val(self.term(v.term), v.prov)
        if isinstance(v, Tup):
            return Tup([self.value(x) for x in v.items])
        if isinstance(v, Choice):
            return Choice(self.term(v.cond), self.value(v.a), self.value(v.b))
        return v


def keyed(R, key):
    """Entries of a dictionary stay valid for the arguments in their key."""
    args = set(R.map) & R.args
    inkey = set()
    for t in key_terms(key):
        inkey |= identifies(t, args)
    if not inkey:
        return R
    q = Renamer([a for a in args if a not in inkey])
    q.n, q.base = R.n + 1000, R.base
    return q


def identifies(t, args):
    """Arguments whose value a dictionary key determines."""
    if t in args:
        return {t}
    if t.op in ("tuple", "list"):
        return {x for a in flat_args(t) for x in identifies(a, args)}
    if t.op == "mcall" and t.args[0] in ("tobytes", "tolist", "tostring") and t.args[1] in args:
        return {t.args[1]}
    return set()


def key_terms(k):
    if isinstance(k, Term):
        return [k]
    if isinstance(k, Val):
        return [k.term]
    if isinstance(k, Tup):
        return [t for x in k.items for t in key_terms(x)]
    if isinstance(k, (tuple, list)):
        return [t for x in k for t in key_terms(x)]
    return []


def get(st, place):
    if place[0] == "attr":
        return st.heap[place[1]].attrs.get(place[2])
    if place[0] == "item":
        return st.heap[place[1]].items.get(place[2])
    if place[0] == "env":
        return st.envs[place[1]].get(place[2])
    return None


def put(st, place, v):
    if place[0] == "attr":
        st.obj_w(place[1]).attrs[place[2]] = v
    elif place[0] == "item":
        st.obj_w(place[1]).items[place[2]] = v
    elif place[0] == "env":
        st.env_w(place[1])[place[2]] = v


def rename_object(st, addr, R, done):
    """Rename everything reachable from an object created by the calls."""
    if addr in done or addr not in st.heap:
        return
    done.add(addr)
    o = st.obj_w(addr)
    if getattr(o, "attrs", None):
        for k, v in list(o.attrs.items()):
            o.attrs[k] = rename_value(st, v, R, done)
    items = getattr(o, "items", None)
    if isinstance(items, list):
        o.items = [rename_value(st, v, R, done) for v in items]
    elif isinstance(items, dict):
        for k, v in list(items.items()):
            items[k] = rename_value(st, v, keyed(R, k), done)
    if getattr(o, "term", None) is not None:
        o.term = R.term(o.term)


def rename_value(st, v, R, done):
    if isinstance(v, Ref):
        rename_object(st, v.addr, R, done)
        return v
    if isinstance(v, Tup):
        return Tup([rename_value(st, x, R, done) for x in v.items])
    if isinstance(v, Func):
        rename_env(st, v.env, R, done)
        if v.wrapped is not None:
            rename_value(st, v.wrapped, R, done)
        return v
    if isinstance(v, Bound):
        rename_value(st, v.func, R, done)
        return v
    if v is None:
        return v
    return R.value(v)


def rename_env(st, e, R, done):
    """Variables of the function in which a closure was made."""
    while e in st.envs and e not in done and e not in R.base:
        done.add(e)
        d = st.env_w(e)
        for k, v in list(d.items()):
            if not k.startswith("$"):
                d[k] = rename_value(st, v, R, done)
        e = d.get("$parent")


def mentions(t):
    return any(s.op == "sym" and s.args[0].startswith("earlier.") for s in subterms(t))


def aliases(t):
    """Identity of an object, or a kept reference to the caller's array."""
    if t.op == "id" or (t.args and t.args[0] == "id"):
        return True
    if t.op == "sym":
        return t.args[0].startswith("earlier.ref.")
    return t.op in ("tuple", "list") and any(aliases(a) for a in flat_args(t))


def guards(c, args):
    """The condition compares something kept with a current argument."""
    for s in subterms(c):
        if s.op in ("eq", "in", "isin", "contains"):
            sides = s.args
        elif s.op == "npcall" and s.args[0] in ("array_equal", "equal", "array_equiv"):
            sides = s.args[1]
        elif s.op == "is" or (s.op == "npcall" and s.args[0] in ("id", "allclose", "isclose", "shares_memory", "may_share_memory")):
            # the same object may have been overwritten, a close value is
            # not the same value
            continue
        elif s.op == "mcall":
            sides = (s.args[1],) + tuple(s.args[2])
        else:
            continue
        sides = [x for x in sides if isinstance(x, Term)]
        if any(aliases(x) for x in sides):
            continue
        old = [mentions(x) for x in sides]
        new = [any(y in args for y in subterms(x)) for x in sides]
        if any(a and not b for a, b in zip(old, new)) and any(b and not a for a, b in zip(old, new)):
            return True
    return False


def exposed(t, memo, args):
    """Earlier values in a value position that no comparison with the current arguments guards."""
    if t in memo:
        return memo[t]
    memo[t] = frozenset()
    if t.op == "sym":
        r = frozenset([t.args[0][8:]]) if t.args[0].startswith("earlier.") else frozenset()
    elif t.op == "ite" and guards(t.args[0], args):
        r = frozenset()
    else:
        r = frozenset()
        for a in flat_args(t):
            r |= exposed(a, memo, args)
    memo[t] = r
    return r


def kept(S, args):
    """[(operation, kind, detail)] with kind 'same', 'kept' or 'unknown'."""
    out = []
    it = S.it
    args = set(args)
    ns0 = {id(c): dict(c.ns) for c in S.classes}
    fresh = {}
    for op in S.ops:
        s = S.st.copy()
        try:
            v, sink = call(S, op, s)
            fresh[op] = (flat_terms(it, v, s), v is None)
        except Exception:
            if os.environ.get("SA_DEBUG"):
                raise
            fresh[op] = None
        restore(S, ns0)
    # all operations in sequence
    s = S.st.copy()
    try:
        for op in S.ops:
            b = s.copy()
            try:
                v, sink = call(S, op, b)
            except Exception:
                if os.environ.get("SA_DEBUG"):
                    raise
                continue
            if v is not None:
                s = b
        changed = S.changes(S.st, s)
        shared = [(c, k) for c in S.classes for k in c.ns if c.ns.get(k) is not ns0[id(c)].get(k)]
        s = s.copy()
        R = Renamer(args)
        R.base = frozenset(S.st.envs)
        done = set()
        for n, k, place in changed:
            if place[0] in ("list", "dict"):
                rename_object(s, place[1], R, done)
            else:
                v = get(s, place)
                if v is not None:
                    put(s, place, rename_value(s, v, keyed(R, place[2] if place[0] == "item" else None), done))
        for c, k in shared:
            v = c.ns[k]
            c.ns[k] = rename_value(s, v, R, done)
        S.changed = [f"{n}.{k}" for n, k, _ in changed] + [f"{c.name}.{k}" for c, k in shared]
        ns1 = {id(c): dict(c.ns) for c in S.classes}
        for op in S.ops:
            if fresh[op] is None:
                out.append((op, "unknown", "not executed"))
                continue
            b = s.copy()
            try:
                v, sink = call(S, op, b)
                ts = flat_terms(it, v, b)
            except Exception as e:
                if os.environ.get("SA_DEBUG"):
                    raise
                out.append((op, "unknown", "analysis failed: %r" % e))
                continue
            restore(S, ns1)
            memo = {}
            bad = set()
            for t in closure_terms(ts, it.phis):
                bad |= exposed(t, memo, args)
            if bad:
                out.append((op, "kept", ", ".join(sorted(bad))))
            elif any(mentions(t) for t in closure_terms(ts, it.phis)):
                out.append((op, "unknown", "values of an earlier call are reused under a condition"))
            elif not changed and not shared:
                out.append((op, "same", ""))
            elif len(ts) == len(fresh[op][0]) and all(shape(a) is shape(b_) for a, b_ in zip(ts, fresh[op][0])):
                out.append((op, "same", ""))
            else:
                out.append((op, "unknown", "the second call is computed differently"))
    finally:
        restore(S, ns0)
    return out


_SHAPE = {}


def shape(t):
    """The term with draws and fresh values numbered by first occurrence."""
    m = {}
    for s in subterms_ordered(t):
        if s.op in ("random", "fresh") and s not in m:
            m[s] = mk("sym", "draw.%d" % len(m))
    return subst(t, m) if m else t


def subterms_ordered(t):
    seen = set()
    stack = [t]
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        yield a
        stack.extend(reversed(list(flat_args(a))))


def closure_terms(ts, phis):
    """The terms and the updates of loop variables below them."""
    seen = set()
    todo = list(ts)
    out = []
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        for s in subterms(t):
            if s.op == "phi" and s in phis:
                todo += [phis[s]["entry"], phis[s]["back"]]
    return out


def restore(S, ns):
    for c in S.classes:
        old = ns[id(c)]
        if any(c.ns.get(k) is not old.get(k) for k in set(c.ns) | set(old)):
            c.ns.clear()
            c.ns.update(old)
