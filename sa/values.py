"""Abstract values and abstract states."""
from .terms import *
from . import terms as T


class Val:
    """Opaque data value: a term plus the memory roots it may share."""

    __slots__ = ("term", "prov")

    def __init__(self, term, prov=frozenset()):
        self.term = term
        self.prov = prov

    def __repr__(self):
        return f"Val({self.term})"


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Ref:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(("ref", self.addr))

    def __repr__(self):
        return f"Ref({self.addr})"


class Func:
    def __init__(self, name, node, env, module, defaults, kwdefaults, qual, cls=None):
        self.name = name
        self.node = node
        self.env = env
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.cls = cls
        self.wrapped = None  # functools.wraps target

    def __repr__(self):
        return f"<func {self.qual}>"


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and (o.self_ is self.self_ or o.self_ == self.self_)

    def __hash__(self):
        return hash(id(self.func))


class Cls:
    def __init__(self, name, qual, bases, ns, module):
        self.name = name
        self.qual = qual
        self.bases = bases
        self.ns = ns
        self.module = module
        self.dataclass = False

    def mro(self):
        m = getattr(self, "_mro", None)
        if m is None:
            m = self._mro = _c3(self)
        return m

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name], c
        return None, None

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        return [c.name for c in self.mro() if not isinstance(c, Cls)]

    def constant(self, name):
        """(True, value) of a constant class attribute; (False, None) when there is none; (None, None) when unknown."""
        v, c = self.lookup(name)
        if c is None:
            return False, None
        t = getattr(v, "term", None)
        if t is not None and t.op == "const":
            return True, t.args[0]
        return None, None

    def __repr__(self):
        return f"<class {self.qual}>"


def _c3(cls):
    seqs = [(b.mro() if isinstance(b, Cls) else [b]) for b in cls.bases]
    seqs = [list(s) for s in seqs] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            c = seqs[0][0]
        out.append(c)
        for s in seqs:
            if s and s[0] is c:
                del s[0]


class Mod:
    def __init__(self, name, env):
        self.name = name
        self.env = env


class Ext:
    """External (non-pymanopt) object identified by dotted name."""

    __slots__ = ("name",)
    _t = {}

    def __new__(cls, name):
        e = cls._t.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls._t[name] = e
        return e

    def __repr__(self):
        return f"Ext({self.name})"


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Prop:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Choice:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


class Super:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


# heap objects --------------------------------------------------------------


class Inst:
    kind = "inst"

    def __init__(self, cls, attrs=None, items=None, term=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items  # for subclasses of list
        self.term = term

    def copy(self):
        return Inst(self.cls, dict(self.attrs), list(self.items) if self.items is not None else None, self.term)


class ListObj:
    kind = "list"

    def __init__(self, items=None, term=None, prov=frozenset(), iset=False):
        self.items = items
        self.term = term
        self.prov = prov
        self.iset = iset
        self.iterator = False

    def copy(self):
        o = ListObj(list(self.items) if self.items is not None else None, self.term, self.prov, self.iset)
        o.iterator = self.iterator
        return o


class DictObj:
    kind = "dict"

    def __init__(self, items=None, default=None, term=None):
        self.items = items if items is not None else {}
        self.default = default
        self.term = term

    def copy(self):
        return DictObj(dict(self.items), self.default, self.term)


class State:
    __slots__ = ("envs", "heap", "own_e", "own_h", "pc", "facts")

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.own_e = set()
        self.own_h = set()
        self.pc = ()
        self.facts = {}

    def copy(self):
        s = State()
        s.envs = dict(self.envs)
        s.heap = dict(self.heap)
        self.own_e = set()
        self.own_h = set()
        s.pc = self.pc
        s.facts = dict(self.facts)
        return s

    def assign(self, other):
        self.envs, self.heap = other.envs, other.heap
        self.own_e, self.own_h = other.own_e, other.own_h
        self.pc, self.facts = other.pc, other.facts

    def env_w(self, e):
        if e not in self.own_e:
            self.envs[e] = dict(self.envs[e])
            self.own_e.add(e)
        return self.envs[e]

    def obj_w(self, addr):
        if addr not in self.own_h:
            self.heap[addr] = self.heap[addr].copy()
            self.own_h.add(addr)
        return self.heap[addr]

    def add_lit(self, term, pol):
        """Assume literal; record derived facts."""
        if term.op == "not":
            return self.add_lit(term.args[0], not pol)
        self.pc = self.pc + ((term, pol),)
        self._fact(term, pol)

    def _fact(self, t, pol):
        if t.op == "not":
            return self._fact(t.args[0], not pol)
        if t.op == "const":
            return
        self.facts[t] = pol
        if t.op == "and" and pol:
            for a in t.args:
                self._fact(a, True)
        elif t.op == "or" and not pol:
            for a in t.args:
                self._fact(a, False)
        elif t.op == "ite" and is_boolean(t):
            c, a, b = t.args
            # resolve ite whose one arm is excluded
            if a.op == "const" and (a is TRUE) != pol:
                self._fact(c, False)
                self._fact(b, pol)
            elif b.op == "const" and (b is TRUE) != pol:
                self._fact(c, True)
                self._fact(a, pol)
        elif t.op == "lt" and pol:
            a, b = t.args
            self.facts[mk("le", a, b)] = True
            self.facts[mk("le", b, a)] = False
            self.facts[mk("lt", b, a)] = False
            self.facts[Eq(a, b)] = False
        elif t.op == "lt" and not pol:
            pass
        elif t.op == "le" and pol:
            a, b = t.args
            self.facts[mk("lt", b, a)] = False
        elif t.op == "isnone" and pol:
            pass
        elif t.op == "truthy" and pol:
            self.facts[mk("isnone", t.args[0])] = False


def decide(t, facts, hook=None):
    """True/False/None under facts."""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    r = facts.get(t)
    if r is not None:
        return r
    if t.op == "not":
        r = decide(t.args[0], facts, hook)
        return None if r is None else not r
    if t.op == "and":
        rs = [decide(a, facts, hook) for a in t.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if t.op == "or":
        rs = [decide(a, facts, hook) for a in t.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    if t.op == "ite":
        c = decide(t.args[0], facts, hook)
        if c is True:
            return decide(t.args[1], facts, hook)
        if c is False:
            return decide(t.args[2], facts, hook)
        a, b = decide(t.args[1], facts, hook), decide(t.args[2], facts, hook)
        if a is not None and a == b:
            return a
        return None
    if hook is not None:
        return hook(t)
    return None
