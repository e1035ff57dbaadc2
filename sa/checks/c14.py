"""C14: randomness comes only from NumPy's global generator."""
import ast
import os

from ..opt_common import *
from .c12 import closure
from . import c44

RULE = (
    "Every module is resolved name by name (imports, aliases, re-exports of a module under another name).  Obligations: no reference to "
    "another source of entropy or to a function that reseeds or restores a generator, no generator or seed passed to a library call, no draw "
    "when a module is imported, no memoised draw; no value drawn or clock read that a first call leaves in an object reaches the result of a "
    "second call of a sampling operation; in the optimizers clock values reach only the reported times and the time limit."
)
FLOOR = 800

ENTROPY = ("random", "secrets", "uuid", "os.urandom", "os.getrandom", "os.getpid", "time.perf_counter_ns", "numpy.random.default_rng", "numpy.random.Generator",
           "numpy.random.RandomState", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.Philox",
           "numpy.random.SFC64", "numpy.random.PCG64DXSM", "numpy.random.BitGenerator", "numpy.random.bit_generator", "jax.random", "tensorflow.random",
           "torch.rand", "torch.randn", "torch.randint", "torch.randperm", "torch.normal", "torch.bernoulli", "torch.multinomial", "torch.Generator",
           "torch.rand_like", "torch.randn_like")
RESEED = ("numpy.random.seed", "numpy.random.set_state", "numpy.random.set_bit_generator", "torch.manual_seed", "torch.random", "torch.seed", "tensorflow.random", "random.seed")
CLOCK = ("time", "datetime")
CLOCK_OK = ("pymanopt.optimizers",)
SEED_KW = ("random_state", "seed", "rng", "generator")
CANON = {"autograd.numpy.random": "numpy.random", "scipy.random": "numpy.random", "numpy.random.mtrand": "numpy.random", "numpy.matlib": "numpy.random"}


class Names(ast.NodeVisitor):
    """Dotted names of a module with import aliases resolved."""

    def __init__(self, tree):
        self.alias = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.alias[a.asname] = a.name
                    else:
                        self.alias[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.alias[a.asname or a.name] = f"{n.module}.{a.name}"
        bound = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
                    bound.add(a.arg)
        # names given to modules or their members by assignment
        for _ in range(3):
            for n in ast.walk(tree):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    d = self.dotted(n.value)
                    if d and n.targets[0].id not in self.alias:
                        self.alias[n.targets[0].id] = d

    def dotted(self, n):
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value)
            return canon(f"{b}.{n.attr}") if b else None
        if isinstance(n, ast.Name):
            d = self.alias.get(n.id)
            return canon(d) if d else None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            b = self.dotted(n.args[0])
            return canon(f"{b}.{n.args[1].value}") if b else None
        if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            f = self.dotted(n.func) or (n.func.id if isinstance(n.func, ast.Name) else "")
            if f in ("__import__", "importlib.import_module"):
                return n.args[0].value
        return None


def canon(d):
    for a, b in CANON.items():
        if d == a or d.startswith(a + "."):
            return b + d[len(a):]
    return d


def under(d, roots):
    return any(d == r or d.startswith(r + ".") for r in roots)


def modules():
    from .. import opt_common as oc

    base = os.path.join(oc.ROOT, "src")
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                m = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                if m.startswith("pymanopt"):
                    yield m[:-9] if m.endswith(".__init__") else m, ast.parse(open(p).read())


def draws(names, node):
    """A draw from NumPy's generator below node."""
    for c in ast.walk(node):
        if isinstance(c, ast.Call):
            d = names.dotted(c.func)
            if d and d.startswith("numpy.random."):
                return c
            if isinstance(c.func, ast.Attribute) and c.func.attr in ("rvs", "random_point", "random_tangent_vector"):
                return c
    return None


MEMO = ("functools.lru_cache", "functools.cache", "functools.cached_property")


def lint(rep):
    for m, tree in modules():
        names = Names(tree)
        n = 0
        bad = 0
        main = [s for s in tree.body if isinstance(s, ast.If) and "__name__" in ast.dump(s.test)]
        skip = {id(x) for s in main for x in ast.walk(s)}
        inner = {id(c.value) for c in ast.walk(tree) if isinstance(c, ast.Attribute)}
        for c in ast.walk(tree):
            if id(c) in skip:
                continue
            if isinstance(c, (ast.Attribute, ast.Name)) and isinstance(c.ctx, ast.Load) and id(c) not in inner:
                d = names.dotted(c)
                if d is None:
                    continue
                n += 1
                why = None
                if under(d, RESEED):
                    why = "reseeds or restores a generator"
                elif under(d, ENTROPY):
                    why = "is a source of randomness other than NumPy's global generator"
                elif under(d, CLOCK) and d not in CLOCK and not m.startswith(CLOCK_OK):
                    why = "makes results depend on the clock"
                if why:
                    bad += 1
                    rep.bad(f"source {d}@{m}", f"{d} {why}", f"{m}:{c.lineno}")
            elif isinstance(c, ast.Call):
                d = names.dotted(c.func) or ""
                own = isinstance(c.func, ast.Name) and c.func.id in {x.name for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
                for k in c.keywords:
                    if k.arg in SEED_KW and not own and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                        if (names.dotted(k.value) or "").startswith("numpy.random"):
                            continue
                        if not d and not (isinstance(c.func, ast.Attribute) and c.func.attr in ("rvs",)):
                            continue
                        bad += 1
                        rep.bad(f"generator {d or c.func.attr}@{m}", f"draws with its own {k.arg}", f"{m}:{c.lineno}")
        for s in at_import(tree, skip):
            c = draws(names, s)
            if c is not None:
                bad += 1
                rep.bad(f"import draw@{m}", "a random draw when the module is imported (before a seed can be set)", f"{m}:{c.lineno}")
        funcs = {f.name: f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef)}
        for f in funcs.values():
            for dec in f.decorator_list:
                d = names.dotted(dec.func if isinstance(dec, ast.Call) else dec)
                if d in MEMO and drawing(names, funcs, f):
                    bad += 1
                    rep.bad(f"memoised draw {f.name}@{m}", f"{d} keeps the first draw", f"{m}:{f.lineno}")
        rep.count("modules")
        rep.count("references resolved", n)
        if not bad:
            rep.ok(f"sources@{m}", f"{n} resolved references", m)


def drawing(names, funcs, f, seen=None):
    seen = seen or set()
    if f.name in seen:
        return False
    seen.add(f.name)
    if draws(names, f) is not None:
        return True
    for c in ast.walk(f):
        if isinstance(c, ast.Call):
            g = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
            if g in funcs and drawing(names, funcs, funcs[g], seen):
                return True
    return False


def at_import(tree, skip):
    """Expressions evaluated when the module is imported."""
    def go(body):
        for s in body:
            if id(s) in skip:
                continue
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from s.args.defaults
                yield from [d for d in s.args.kw_defaults if d is not None]
                yield from s.decorator_list
            elif isinstance(s, ast.ClassDef):
                yield from s.bases
                yield from s.decorator_list
                yield from go(s.body)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for k in ("test", "iter"):
                    if getattr(s, k, None) is not None:
                        yield getattr(s, k)
                for k in ("body", "orelse", "finalbody"):
                    yield from go(getattr(s, k, []))
                for h in getattr(s, "handlers", []):
                    yield from go(h.body)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            else:
                yield s
    yield from go(tree.body)


def run(rep, tier):
    lint(rep)
    clocks(rep)
    c44.sweep(rep, draws_only=True)


def container(e):
    c = e.data["callee"]
    return c.op == "attr" and (c.args[1] in ("append", "extend", "insert", "format", "join", "setdefault", "update") or c.args[1].startswith("print"))


TIMED = {"time", "log", "stopping_criterion"}


def clocks(rep):
    for R in runs():
        loc = f"{OPTS[R.opt]}:{R.opt}.run"
        if not R.attrs:
            rep.unk(f"clock@{R.label}", "no result", loc)
            continue
        outs = {"result." + k: [t] for k, t in R.attrs.items() if k not in TIMED}
        outs["calls"] = [a for e in R.run_events if e.kind == "call" and not container(e) for a in e.data["args"]]
        outs["draws"] = [a for e in R.run_events if e.kind == "random" for a in e.data["args"]]
        for k, ts in outs.items():
            t = [s for s in closure(ts, R.it.phis) if s.op == "fresh" and s.args[0] == "time"]
            rep.count("outputs traced")
            if t:
                rep.bad(f"clock {k}@{R.label}", "depends on the time of day", loc)
            else:
                rep.ok(f"clock {k}@{R.label}", "no clock value reaches it", loc)
