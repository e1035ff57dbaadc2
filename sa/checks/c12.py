"""C12: a second run of an optimizer does not depend on the first."""
import os

from ..opt_common import *
from ..interp import Dead

RULE = (
    "Each optimizer is executed abstractly once; every instance attribute, class attribute, module variable, default argument and helper "
    "object whose content the run changed is then replaced by an unknown (stale) value and the run is executed again from that "
    "state.  Obligations: no stale value reaches the result, the log, a call, the condition that ends a loop or that of an error (including "
    "through loops); impure helpers that outlive the run (line searchers) are used only through a fresh copy unless reuse was requested."
)
FLOOR = 150


def stale(name):
    return mk("sym", "stale." + name)


def is_stale(t):
    return t.op == "sym" and t.args[0].startswith("stale.")


def closure(terms, phis):
    """All subterms, following loop variables through their updates."""
    seen = set()
    todo = [t for t in terms if isinstance(t, Term)]
    while todo:
        t = todo.pop()
        for s in subterms(t):
            if s in seen:
                continue
            seen.add(s)
            if s.op == "phi" and s in phis:
                for k in ("entry", "back"):
                    if phis[s][k] not in seen:
                        todo.append(phis[s][k])
    return seen


class Twice:
    def __init__(self, program, o, label, ov, rk, setup, hooks=None):
        self.program, self.o, self.label = program, o, label
        self.hooks = hooks or OptHooks(program)
        self.it, self.st = fresh_interp(program, self.hooks)
        if setup:
            setup(self.it, self.st, self.hooks)
        self.ref = instantiate(self.it, self.st, program, o, ov)
        self.rk = rk
        self.classes = {id(c): c for c in self.all_classes()}

    def all_classes(self):
        out = []
        for m in list(OPTS.values()) + ["pymanopt.optimizers.optimizer", "pymanopt.optimizers.line_search"]:
            for v in self.program.namespace(m).values():
                if isinstance(v, Cls):
                    out.append(v)
        return out

    def run(self, st):
        it = self.it
        n0 = len(it.events)
        it.sinks.append([])
        kw = {k: it.lift(v) for k, v in self.rk.items()}
        f = it.getattr(self.ref, "run", st, entry_node("run"))
        try:
            v = it.call(f, [Val(PROBLEM, frozenset(["problem"]))], kw, st, entry_node("run"))
        except Dead:
            v = None
        return v, it.events[n0:], it.sinks.pop()

    def name(self, st, addr):
        o = st.heap[addr]
        if addr == self.ref.addr:
            return "self"
        return f"{o.cls.name if o.kind == 'inst' else o.kind}#{addr}"

    def changes(self, pre, post):
        """(object name, field, place) of everything the run left different."""
        out = []
        for addr, o in pre.heap.items():
            p = post.heap.get(addr)
            if p is None or p is o:
                continue
            n = self.name(pre, addr)
            if o.kind == "inst":
                for k in sorted(set(o.attrs) | set(p.attrs)):
                    if not same_value(o.attrs.get(k), p.attrs.get(k)):
                        out.append((n, k, ("attr", addr, k)))
            elif o.kind == "dict":
                for k in sorted(set(o.items) | set(p.items), key=str):
                    if not same_value(o.items.get(k), p.items.get(k)):
                        out.append((n, str(k), ("item", addr, k)))
                if o.term is not p.term:
                    out.append((n, "contents", ("dict", addr)))
            elif o.kind == "list":
                if o.term is not p.term or (o.items is None) != (p.items is None) or (o.items is not None and (len(o.items) != len(p.items) or not all(same_value(a, b) for a, b in zip(o.items, p.items)))):
                    out.append((n, "contents", ("list", addr)))
        for e, d in pre.envs.items():
            q = post.envs.get(e)
            if q is None or q is d:
                continue
            for k in sorted(set(d) | set(q)):
                if not k.startswith("$") and not same_value(d.get(k), q.get(k)):
                    out.append((str(e), k, ("env", e, k)))
        return out

    def poison(self, st, changed):
        for n, k, place in changed:
            v = Val(stale(f"{n}.{k}"))
            if place[0] == "attr":
                st.obj_w(place[1]).attrs[place[2]] = v
            elif place[0] == "item":
                st.obj_w(place[1]).items[place[2]] = v
            elif place[0] == "dict":
                o = st.obj_w(place[1])
                o.term = v.term
            elif place[0] == "list":
                o = st.obj_w(place[1])
                o.items, o.term = None, v.term
            else:
                st.env_w(place[1])[place[2]] = v


def same_value(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, Val) and isinstance(b, Val):
        return a.term is b.term
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.addr == b.addr
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Choice) and isinstance(b, Choice):
        return a.cond is b.cond and same_value(a.a, b.a) and same_value(a.b, b.b)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and same_value(a.self_, b.self_)
    return False


IMPURE = {"search"}


def run(rep, tier):
    for o, lab, ov, rk, su in configs():
        try:
            one(rep, o, lab, ov, rk, su)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"analysis@{lab}", "analysis failed: %r" % e)


def one(rep, o, lab, ov, rk, su):
    rep.count("configurations")
    loc = f"{OPTS[o]}:{o}.run"
    T = Twice(oc_program(), o, lab, ov, rk, su)
    ns0 = {i: dict(c.ns) for i, c in T.classes.items()}
    post = T.st.copy()
    v1, ev1, sink1 = T.run(post)
    if v1 is None:
        rep.unk(f"run@{lab}", "no result", loc)
        return
    shared = []
    for i, c in T.classes.items():
        for k in set(c.ns) | set(ns0[i]):
            if c.ns.get(k) is not ns0[i].get(k):
                shared.append((c, k, ns0[i].get(k)))
    changed = T.changes(T.st, post)
    rep.count("state left by a run", len(changed))
    st = T.st.copy()
    T.poison(st, changed)
    st = st.copy()
    for c, k, old in shared:
        c.ns[k] = Val(stale(f"{c.name}.{k}"))
        changed.append((c.name, k, None))
    try:
        v2, ev2, sink2 = T.run(st)
    finally:
        for c, k, old in shared:
            if old is None:
                c.ns.pop(k, None)
            else:
                c.ns[k] = old
    if v2 is None:
        rep.bad(f"result@{lab}", "after an earlier run no result is returned: raises %s" % sorted({str(s[0]) for s in sink2}), loc)
        return
    outs = {}
    if isinstance(v2, Ref) and st.heap[v2.addr].kind == "inst":
        for k, v in st.heap[v2.addr].attrs.items():
            outs["result." + k] = [T.it.term(v, st)]
    else:
        outs["result"] = [T.it.term(v2, st)]
    for k, v in st.heap[T.ref.addr].attrs.items():
        if k in ("_log", "log") or k.endswith("log"):
            outs["self." + k] = [T.it.term(v, st)]
    outs["loop ends"] = loop_ends(ev2)
    outs["errors"] = [c for s in sink2 for c, _ in s[1].pc]
    outs["calls"] = [a for e in ev2 if e.kind == "call" for a in e.data["args"]]
    for k, ts in outs.items():
        bad = sorted({s.args[0][6:] for s in closure(ts, T.it.phis) if is_stale(s)})
        if bad:
            rep.bad(f"{k}@{lab}", "depends on what an earlier run left in " + ", ".join(bad), loc)
        else:
            rep.count("outputs traced")
            rep.ok(f"{k}@{lab}", f"independent of the {len(changed)} places an earlier run changes", loc)
    # the second run behaves as the first one from equal state
    # impure helpers that outlive the run
    n = 0
    for e in ev2:
        if e.kind != "call":
            continue
        c = e.data["callee"]
        if c.op != "attr" or c.args[1] not in IMPURE:
            continue
        n += 1
        shared = shared_receiver(c.args[0])
        if shared is not None:
            rep.bad(f"helper {c.args[1]}@{lab}", f"{show(c.args[0], 4)} is used without a fresh copy: its memory of an earlier run is used", loc)
    if n:
        rep.ok(f"helper@{lab}", f"{n} calls through a copy made in this run", loc) if not any(x["key"].startswith("helper search") and x["key"].endswith(lab) for x in rep.obs) else None


def shared_receiver(t):
    """The opaque object of the constructor or problem an impure call reaches."""
    if t.op == "ext" and t.args[0] in ("copy.deepcopy", "copy.copy"):
        return None
    if t.op == "ite":
        return shared_receiver(t.args[1]) or shared_receiver(t.args[2])
    if t.op == "sym" and t.args[0].startswith(("cfg.", "stale.")):
        return t
    return None


def loop_ends(events):
    """Conditions under which the loops of a run go on or end (beyond those under which they begin)."""
    out = []
    for e in events:
        if e.kind != "loop":
            continue
        begin = {c for c, _ in e.data["header"].pc}
        ends = list(e.data["breaks"]) + [e.data["exit"], e.data["back"]]
        out += [c for s in ends if s is not None for c, _ in s.pc if c not in begin]
        if e.data["iter"] is not None:
            out.append(e.data["iter"])
    return out


def oc_program():
    from .. import opt_common as oc

    return oc.program(oc.ROOT)
